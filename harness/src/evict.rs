//! Monitors of eviction: C14 (idle files) and C17 (idle and dead processes).
//! A thing used within its lifetime must be there; one left alone for longer
//! must be gone. Between what is certain and what is late anything goes.
use crate::common::*;
use crate::fs::{self, fds_below, Obs, Op};
use crate::proc::{self, pid_state, running, Desk, PObs, POp};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// When something was last used, as far as an observer can tell.
#[derive(Clone, Copy, Debug)]
struct Used {
    /// it was certainly used after this instant …
    after: Instant,
    /// … and possibly until this one
    until: Instant,
    /// lifetime counted from the certain use
    ttl: Duration,
    /// longest lifetime any of the possible uses can have given it
    max_ttl: Duration,
}
impl Used {
    fn must_be_there(&self, at: Instant) -> bool {
        at < self.after + self.ttl
    }
    fn must_be_gone(&self, at: Instant, slack: Duration) -> bool {
        at > self.until + self.max_ttl + slack
    }
}

const SLACK: Duration = Duration::from_millis(600);

/// A pause chosen so that all sides of the lifetime are visited.
fn pause(r: &mut StdRng, ttl: Duration, cleanup: Duration) -> Duration {
    let t = ttl.as_micros() as u64;
    let us = match r.gen_range(0, 20) {
        0..=9 => r.gen_range(0, t / 6 + 1),
        10..=13 => r.gen_range(t / 4, t * 3 / 4),
        14..=16 => r.gen_range(t * 9 / 10, t * 11 / 10),
        17..=18 => t + r.gen_range(0, 3 * cleanup.as_micros() as u64 + 1),
        _ => t + cleanup.as_micros() as u64 + SLACK.as_micros() as u64 + 100_000,
    };
    Duration::from_micros(us)
}

// ------------------------------------------------------------------ C14
struct F {
    path: PathBuf,
    data: Vec<u8>,
    /// asked for when it is opened
    read: bool,
    write: bool,
    open: Option<(u32, u32, Used)>,
    old: Vec<(u32, u32)>,
}

pub fn c14(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases_on(ctx, 3 * num_threads(), ctx.pick(120, 4000), Duration::from_secs(ctx.pick(40, 500)), move |i| files(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(16, 200), Duration::from_secs(ctx.pick(15, 120)), move |i| reopen_at_expiry(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(8, 60), Duration::from_secs(ctx.pick(30, 200)), move |i| many_files(&c, i));
    ctx.report_panics("files were evicted");
    ctx.finish(
        "servers with file lifetimes of 60-300 ms and cleanup every 1-40 ms; 2-6 files opened, used, misused (outdated \
         signatures), reopened, renamed, closed and left alone with pauses on all sides of the lifetime; each outcome is judged \
         by when the file was certainly used last and possibly used last; non-trivial = a file was seen both kept \
         beyond its lifetime by use and evicted; distinct by the sequence of operations and outcomes",
        20,
        &["an idle file counts as late only 600 ms after its lifetime and the cleanup interval, on a machine that did not stall"],
    )
}

fn files(c: &Ctx, i: u64) {
    let mut r = c.rng("files", i);
    let ttl = Duration::from_millis(r.gen_range(60, 300));
    let cleanup = Duration::from_millis(r.gen_range(1, 40));
    let mut d = match Desk::open(&mut r, |s| { s.file_ttl = ttl; s.cleanup = cleanup }) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut fl: Vec<F> = (0..r.gen_range(2, 7))
        .map(|k| {
            let data = payload(&mut r, 20);
            let path = root.join(format!("f{}", k));
            std::fs::write(&path, &data).unwrap();
            let (read, write) = *[(true, true), (true, true), (true, false), (false, true)].choose(&mut r).unwrap();
            F { path, data, read, write, open: None, old: vec![] }
        })
        .collect();
    let stall = Stall::start();
    let mut log: Vec<(u8, u8)> = vec![];
    let mut trace: Vec<String> = vec![];
    let (mut kept, mut evicted, mut unclear) = (0u64, 0u64, 0u64);
    let t0 = Instant::now();
    let res = (|| -> Result<(), (&'static str, String)> {
        let na = |e: String| ("no-answer", e);
        let slack = cleanup + SLACK;
        for _ in 0..r.gen_range(40, 100) {
            if t0.elapsed() > Duration::from_secs(12) {
                break;
            }
            std::thread::sleep(pause(&mut r, ttl, cleanup));
            let k = r.gen_range(0, fl.len());
            let kind = r.gen_range(0, 12);
            let f = &mut fl[k];
            let (op, certain) = match (&f.open, kind) {
                (None, 0) if !f.old.is_empty() => {
                    let (id, sig) = *f.old.choose(&mut r).unwrap();
                    (Op::Read { id, sig }, false)
                }
                (None, _) | (Some(_), 1..=3) => (Op::Open { path: f.path.display().to_string(), create: f.write && r.gen(), write: f.write, read: f.read }, true),
                (Some((id, sig, _)), 4..=6) if f.read => (Op::Read { id: *id, sig: *sig }, true),
                (Some((id, sig, _)), 7..=8) if f.write => (Op::Write { id: *id, sig: *sig, data: payload(&mut r, 30) }, true),
                (Some((id, sig, _)), 9) => (Op::Rename { id: *id, sig: *sig, to: root.join(format!("f{}-{}", k, r.gen::<u16>())).display().to_string() }, true),
                (Some((id, sig, _)), 10) if f.read => (Op::Read { id: *id, sig: sig ^ 1 }, false),
                (Some((id, sig, _)), 11) => (Op::Close { id: *id, sig: *sig }, true),
                (Some((id, sig, _)), _) if f.read => (Op::Read { id: *id, sig: *sig }, true),
                (Some((id, sig, _)), _) => (Op::Write { id: *id, sig: *sig, data: payload(&mut r, 30) }, true),
            };
            let before = Instant::now();
            let obs = d.raw(&mut r, fs::to_request(&op)).map(fs::from_reply).map_err(|e| na(format!("{:?} was not answered: {:?}", op, e)))?;
            let after = Instant::now();
            let st = f.open.as_ref().map(|o| (o.2.must_be_there(after), o.2.must_be_gone(before, slack)));
            trace.push(format!("{:?} idle {:?} {:?} -> {}", before - t0, f.open.as_ref().map(|o| before - o.2.after), op, truncate(&format!("{:?}", obs), 80)));
            let gone = match (&f.open, &op, &obs) {
                (None, Op::Read { .. }, Obs::Io(_)) => false,
                (None, Op::Open { .. }, Obs::Opened { id, sig, .. }) if !f.old.iter().any(|o| o.0 == *id) => {
                    f.open = Some((*id, *sig, Used { after: before, until: after, ttl, max_ttl: ttl }));
                    false
                }
                (None, op, obs) => return Err(("closed-file", format!("{:?} gave {:?}, but the file was closed or evicted before", op, obs))),
                (Some((id, sig, _)), Op::Open { .. }, Obs::Opened { id: i, sig: s, .. }) => {
                    if i == id && s != sig {
                        return Err(("identity", format!("{:?} gave signature {} instead of {}", op, s, sig)));
                    }
                    i != id
                }
                (Some(_), Op::Read { .. }, Obs::Contents { data, .. }) if *data == f.data => false,
                (Some((id, _, _)), Op::Write { .. }, Obs::Written { id: i, .. }) if i == id => false,
                (Some((id, _, _)), Op::Rename { .. }, Obs::Renamed { id: i, .. }) if i == id => false,
                (Some((id, _, _)), Op::Close { .. }, Obs::Closed { id: i }) if i == id => false,
                (Some((_, s, _)), Op::Read { sig, .. }, Obs::SigChanged { .. }) if sig != s => false,
                (Some(_), Op::Open { .. }, x) => return Err(("open", format!("{:?} gave {:?}", op, x))),
                (Some(_), _, Obs::Io(_)) => true,
                (Some(_), op, x) => return Err(("outcome", format!("{:?} gave {:?}", op, x))),
            };
            log.push((kind as u8, gone as u8 + 2 * f.open.is_some() as u8));
            match st {
                Some((true, _)) => {
                    if gone {
                        let (id, _, u) = f.open.unwrap();
                        return Err(("evicted-early", format!("file {} was used at most {:?} before, its lifetime is {:?}, but it was gone: {:?} gave {:?}", id, after - u.after, ttl, op, obs)));
                    }
                    kept += 1;
                }
                Some((_, true)) if stall.worst_ms() < 150 => {
                    if !gone {
                        let (id, _, u) = f.open.unwrap();
                        return Err(("not-evicted", format!("file {} was not used for {:?} (lifetime {:?}, cleanup every {:?}) but is still open: {:?} gave {:?}", id, before - u.until, ttl, cleanup, op, obs)));
                    }
                    evicted += 1;
                }
                Some(_) => unclear += 1,
                None => {}
            }
            // what is known now
            if let Some((id, sig, used)) = &mut f.open {
                let now = Used { after: before, until: after, ttl, max_ttl: ttl };
                match &obs {
                    _ if gone => {
                        f.old.push((*id, *sig));
                        f.open = match obs {
                            Obs::Opened { id, sig, .. } => Some((id, sig, now)),
                            _ => None,
                        };
                    }
                    Obs::Closed { .. } => {
                        f.old.push((*id, *sig));
                        f.open = None;
                    }
                    _ if certain => {
                        *used = now;
                        match (&op, &obs) {
                            (Op::Write { data, .. }, Obs::Written { sig: s, .. }) => {
                                *sig = *s;
                                f.data = data.clone();
                            }
                            (Op::Rename { to, .. }, Obs::Renamed { sig: s, .. }) => {
                                *sig = *s;
                                f.path = PathBuf::from(to);
                            }
                            _ => {}
                        }
                    }
                    _ => used.until = after,
                }
            }
            // descriptors of what must be open, and of what must not be
            if r.gen_bool(0.3) {
                let a = Instant::now();
                let fds = fds_below(&root);
                let b = Instant::now();
                for f in &fl {
                    let there = fds.iter().filter(|x| **x == f.path.display().to_string()).count();
                    match &f.open {
                        Some(o) if o.2.must_be_there(b) && there != 1 => return Err(("fd", format!("{} must be open but has {} descriptors", f.path.display(), there))),
                        Some(o) if o.2.must_be_gone(a, slack) && stall.worst_ms() < 150 && there != 0 => return Err(("fd", format!("{} was not used for {:?} but has {} descriptors", f.path.display(), a - o.2.until, there))),
                        _ => {}
                    }
                }
            }
        }
        // all left alone: everything goes
        if !eventually_none(&root, ttl + cleanup + Duration::from_secs(10)) {
            if stall.worst_ms() < 1000 {
                return Err(("not-evicted", format!("descriptors {:?} are still open {:?} after the last use", fds_below(&root), ttl + Duration::from_secs(10))));
            }
        }
        // and contents are as they were written
        for f in &fl {
            if std::fs::read(&f.path).ok().as_ref() != Some(&f.data) {
                return Err(("content", format!("{} does not hold what was written last", f.path.display())));
            }
        }
        Ok(())
    })();
    c.eval();
    c.count("requests", d.asked);
    c.count("kept_as_required", kept);
    c.count("evicted_as_required", evicted);
    c.count("either_allowed", unclear);
    if kept > 0 && evicted > 0 {
        c.distinct(&log);
    }
    d.close();
    if let Err((k, m)) = res {
        c.violation(&format!("evict-{}", k), &m, json!({"case": i, "ttl_ms": ttl.as_millis() as u64, "last": trace.iter().rev().take(15).collect::<Vec<_>>()}));
    }
}
fn eventually_none(root: &std::path::Path, limit: Duration) -> bool {
    crate::rig::eventually(limit, || fds_below(root).is_empty())
}

/// A file reopened just as it expires has a whole lifetime ahead of it.
fn reopen_at_expiry(c: &Ctx, i: u64) {
    let mut r = c.rng("reopen", i);
    let ttl = Duration::from_millis(r.gen_range(8, 20));
    let mut d = match Desk::open(&mut r, |s| { s.file_ttl = ttl; s.cleanup = Duration::from_micros(200) }) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let path = root.join("f").display().to_string();
    let t0 = Instant::now();
    let (mut n, mut same, mut judged) = (0u64, 0u64, 0u64);
    let mut last: Option<u32> = None;
    while t0.elapsed() < Duration::from_secs(std::env::var("REOPEN_S").ok().and_then(|x| x.parse().ok()).unwrap_or(c.pick(4, 20))) && !c.done() {
        let op = Op::Open { path: path.clone(), create: true, write: true, read: true };
        let before = Instant::now();
        // open and read in one request, so that little time passes between them
        let obs = match d.raw(&mut r, fs::to_request(&op)).map(fs::from_reply) {
            Ok(x) => x,
            Err(e) => { c.violation("evict-no-answer", &format!("{:?}", e), json!({})); break }
        };
        let (id, sig) = match obs {
            Obs::Opened { id, sig, .. } => (id, sig),
            x => { c.violation("evict-open", &format!("{:?}", x), json!({})); break }
        };
        n += 1;
        if last == Some(id) {
            same += 1;
        }
        last = Some(id);
        let got = match d.raw(&mut r, fs::to_request(&Op::Read { id, sig })).map(fs::from_reply) {
            Ok(x) => x,
            Err(e) => { c.violation("evict-no-answer", &format!("{:?}", e), json!({})); break }
        };
        let after = Instant::now();
        if after < before + ttl {
            judged += 1;
            if got != (Obs::Contents { id, data: vec![] }) {
                c.violation("evict-reopened", &format!("file {} was opened (again: {}) at most {:?} before, its lifetime is {:?}, but reading it gave {:?}", id, last == Some(id), after - before, ttl, got), json!({"case": i}));
                break;
            }
        }
        // until just about the end of its lifetime
        let due = after + ttl - Duration::from_micros(200) + Duration::from_micros(r.gen_range(0, 600));
        while Instant::now() < due {
            std::thread::yield_now();
        }
    }
    c.eval();
    c.count("reopened_around_expiry", n);
    c.count("reopened_under_same_id", same);
    c.count("reopened_judged", judged);
    d.close();
}

/// Whether something that should be over by `due` is, given a machine that
/// did not stall; None: cannot be judged.
fn over_by(due: Instant, stall: &Stall, mut over: impl FnMut() -> bool) -> Option<bool> {
    std::thread::sleep(due.saturating_duration_since(Instant::now()));
    if over() {
        return Some(true);
    }
    if stall.worst_ms() < 150 { Some(false) } else { None }
}

/// Many files left idle at once, a few kept in use.
fn many_files(c: &Ctx, i: u64) {
    for attempt in 0..2 {
        let mut r = c.rng("many", i);
        let ttl = Duration::from_millis(r.gen_range(300, 800));
        let cleanup = Duration::from_millis(r.gen_range(50, 300));
        let mut d = match Desk::open(&mut r, |s| { s.file_ttl = ttl; s.cleanup = cleanup }) {
            Some(d) => d,
            None => return c.inconclusive("no server"),
        };
        let stall = Stall::start();
        let tmp = tempfile::tempdir().expect("tempdir");
        let root = std::fs::canonicalize(tmp.path()).unwrap();
        let n = r.gen_range(60, 200);
        let mut open = vec![];
        let b = Instant::now();
        let q = over_there::core::Request::Batch(over_there::core::request::BatchArgs {
            operations: (0..n).map(|k| fs::to_request(&Op::Open { path: root.join(k.to_string()).display().to_string(), create: true, write: true, read: true })).collect(),
        });
        match d.raw(&mut r, q) {
            Ok(over_there::core::Reply::Batch(b)) => for x in b.results {
                if let Obs::Opened { id, sig, .. } = fs::from_reply(x) { open.push((id, sig)) }
            },
            x => { d.close(); return c.violation("evict-no-answer", &truncate(&format!("{:?}", x), 200), json!({})) }
        }
        let last = Instant::now();
        let kept = open.split_off(n.min(open.len()) - r.gen_range(0, 4).min(open.len()));
        // the kept ones are read until well after the others must be gone
        let due = last + ttl + cleanup + SLACK;
        let mut used = b;
        let mut early = None;
        while Instant::now() < due && early.is_none() {
            let before = Instant::now();
            for (id, sig) in &kept {
                let x = d.raw(&mut r, fs::to_request(&Op::Read { id: *id, sig: *sig })).map(fs::from_reply);
                if Instant::now() < used + ttl && !matches!(x, Ok(Obs::Contents { .. })) {
                    early = Some(format!("a file in use gave {:?} while {} others were evicted", x, n));
                }
            }
            used = before;
            std::thread::sleep(ttl / 8);
        }
        let k = kept.len();
        let over = over_by(due, &stall, || fds_below(&root).len() <= k);
        let left = fds_below(&root).len();
        c.eval();
        c.count("idle_at_once", n as u64);
        c.distinct(&("many", n, k, ttl, cleanup));
        d.close();
        if let Some(e) = early {
            return c.violation("evict-evicted-early", &e, json!({"case": i, "ttl_ms": ttl.as_millis() as u64}));
        }
        match over {
            Some(true) => return,
            None => return c.inconclusive("the machine stalled"),
            Some(false) if attempt == 1 => return c.violation(
                "evict-not-evicted",
                &format!("of {} files left idle at once {} are still open {:?} later (lifetime {:?}, cleanup every {:?})", n, left - k.min(left), last.elapsed(), ttl, cleanup),
                json!({"case": i}),
            ),
            Some(false) => continue,
        }
    }
}

/// Many processes left idle at once.
fn many_procs(c: &Ctx, i: u64) {
    for attempt in 0..2 {
        let mut r = c.rng("many", i);
        let ttl = Duration::from_millis(r.gen_range(400, 800));
        let cleanup = Duration::from_millis(r.gen_range(50, 300));
        let mut d = match Desk::open(&mut r, |s| { s.proc_ttl = ttl; s.dead_proc_ttl = ttl; s.cleanup = cleanup }) {
            Some(d) => d,
            None => return c.inconclusive("no server"),
        };
        let stall = Stall::start();
        let n = r.gen_range(20, 50);
        let mut ids = vec![];
        for _ in 0..n {
            let op = POp::Exec { cmd: "sleep".into(), args: vec!["1000".into()], i: r.gen(), o: r.gen(), e: r.gen(), dir: None };
            match d.ask(&mut r, &op) {
                Ok(PObs::Started(id)) => ids.push(id),
                x => { d.close(); return c.violation("evict-exec", &truncate(&format!("{:?}", x), 200), json!({})) }
            }
        }
        let last = Instant::now();
        // (being reaped takes a little longer than being killed)
        let over = over_by(last + ttl + cleanup + SLACK, &stall, || ids.iter().all(|x| !running(*x)));
        let left = ids.iter().filter(|x| running(**x)).count();
        c.eval();
        c.count("idle_at_once", n as u64);
        c.distinct(&("many", n, ttl, cleanup));
        d.close();
        for id in ids {
            if running(id) {
                unsafe { libc::kill(id as i32, libc::SIGKILL) };
            }
        }
        match over {
            Some(true) => return,
            None => return c.inconclusive("the machine stalled"),
            Some(false) if attempt == 1 => return c.violation(
                "evict-not-evicted",
                &format!("of {} processes left idle at once {} still run (lifetime {:?}, cleanup every {:?})", n, left, ttl, cleanup),
                json!({"case": i}),
            ),
            Some(false) => continue,
        }
    }
}

// ------------------------------------------------------------------ C17
struct P {
    id: u32,
    used: Used,
    dead: bool,
    told_dead: bool,
    /// input, output, errors are piped
    pipes: (bool, bool, bool),
}

pub fn c17(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases_on(ctx, 3 * num_threads(), ctx.pick(120, 4000), Duration::from_secs(ctx.pick(40, 600)), move |i| procs(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(6, 40), Duration::from_secs(ctx.pick(30, 200)), move |i| many_procs(&c, i));
    ctx.report_panics("processes were evicted");
    ctx.finish(
        "servers with process lifetimes of 60-300 ms, a different one for dead processes, and cleanup every 1-40 ms; 2-5 \
         processes started, used (status, output, input), ended, killed and left alone with pauses on all sides of the \
         lifetimes; each outcome, and /proc, is judged by when the process was certainly used last and possibly used \
         last; non-trivial = a process was seen both kept by use and evicted; distinct by the sequence of operations \
         and outcomes",
        20,
        &["an idle process counts as late only 600 ms after its lifetime and the cleanup interval, on a machine that did not stall"],
    )
}

fn procs(c: &Ctx, i: u64) {
    let mut r = c.rng("procs", i);
    let ttl = Duration::from_millis(r.gen_range(60, 300));
    let dead_ttl = Duration::from_millis(if r.gen() { r.gen_range(20, 60) } else { r.gen_range(300, 600) });
    let cleanup = Duration::from_millis(r.gen_range(1, 40));
    let mut d = match Desk::open(&mut r, |s| { s.proc_ttl = ttl; s.dead_proc_ttl = dead_ttl; s.cleanup = cleanup }) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let stall = Stall::start();
    let mut ps: Vec<P> = vec![];
    let mut all: Vec<u32> = vec![];
    let mut log: Vec<(u8, u8)> = vec![];
    let mut trace: Vec<String> = vec![];
    let (mut kept, mut evicted, mut unclear, mut dead_kept, mut dead_evicted) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let t0 = Instant::now();
    let slack = cleanup + SLACK;
    let longest = ttl.max(dead_ttl);
    let res = (|| -> Result<(), (&'static str, String)> {
        let na = |e: String| ("no-answer", e);
        for _ in 0..r.gen_range(40, 90) {
            if t0.elapsed() > Duration::from_secs(12) {
                break;
            }
            // mostly pauses around the lifetime that applies to the next one asked
            if ps.len() < 2 || (ps.len() < 5 && r.gen_bool(0.15)) {
                let pipes = if r.gen() { (true, true, true) } else { (r.gen(), r.gen(), r.gen()) };
                let op = if pipes.0 {
                    POp::Exec { cmd: proc::exe(), args: vec!["child".into(), "wait".into(), "0".into()], i: true, o: pipes.1, e: pipes.2, dir: None }
                } else {
                    POp::Exec { cmd: "sleep".into(), args: vec!["1000".into()], i: false, o: pipes.1, e: pipes.2, dir: None }
                };
                let before = Instant::now();
                match d.ask(&mut r, &op).map_err(na)? {
                    PObs::Started(id) => {
                        ps.push(P { id, used: Used { after: before, until: Instant::now(), ttl, max_ttl: ttl }, dead: false, told_dead: false, pipes });
                        all.push(id);
                    }
                    x => return Err(("exec", format!("{:?}", x))),
                }
                continue;
            }
            let k = r.gen_range(0, ps.len());
            let base = if ps[k].told_dead && r.gen() { dead_ttl } else { ttl };
            std::thread::sleep(pause(&mut r, base, cleanup));
            let p = &mut ps[k];
            let kind = r.gen_range(0, 10);
            let op = match kind {
                0..=3 => POp::Status(p.id),
                4..=5 if p.pipes.1 => POp::Out(p.id),
                6 if p.pipes.2 => POp::Err(p.id),
                7 if !p.dead && p.pipes.0 => POp::In(p.id, vec![r.gen()]),
                8 if r.gen_bool(0.3) => POp::Kill(p.id),
                _ => POp::Status(p.id),
            };
            let before = Instant::now();
            let obs = d.ask(&mut r, &op).map_err(na)?;
            let after = Instant::now();
            let gone = obs == PObs::Io(std::io::ErrorKind::InvalidInput) && !matches!(op, POp::Kill(_));
            trace.push(format!("{:?} process {} used {:?} before, told dead {}: {:?} -> {:?}", before - t0, p.id, before - p.used.after, p.told_dead, op, obs));
            log.push((kind as u8, gone as u8 + 2 * p.told_dead as u8));
            if p.used.must_be_there(after) {
                if gone {
                    return Err(("evicted-early", format!("process {} was used at most {:?} before, its lifetime is {:?} (dead: {}), but it was gone: {:?} gave {:?}", p.id, after - p.used.after, p.used.ttl, p.told_dead, op, obs)));
                }
                kept += 1;
                dead_kept += p.told_dead as u64;
            } else if p.used.must_be_gone(before, slack) && stall.worst_ms() < 150 {
                let there = !gone && !(matches!(op, POp::Kill(_)) && matches!(obs, PObs::Io(_)));
                if there {
                    return Err(("not-evicted", format!("process {} was not used for {:?} (lifetime {:?}, dead: {}, cleanup every {:?}) but {:?} gave {:?}", p.id, before - p.used.until, p.used.max_ttl, p.told_dead, cleanup, op, obs)));
                }
                evicted += 1;
                dead_evicted += p.told_dead as u64;
            } else {
                unclear += 1;
            }
            if gone {
                // an evicted process does not run on
                let id = p.id;
                if !crate::rig::eventually(Duration::from_secs(10), || !running(id)) && stall.worst_ms() < 1000 {
                    return Err(("runs-on", format!("process {} was evicted but still runs 10 s later ({:?})", id, pid_state(id))));
                }
                ps.remove(k);
                continue;
            }
            let now = |t: Duration| Used { after: before, until: after, ttl: t, max_ttl: t };
            match (&op, &obs) {
                (POp::Status(_), PObs::Status(_, true, None)) if !p.told_dead => p.used = now(ttl),
                (POp::Status(_), PObs::Status(_, false, Some(_))) if p.dead => {
                    p.told_dead = true;
                    p.used = now(dead_ttl);
                }
                (POp::Out(_), PObs::Out(_, v)) | (POp::Err(_), PObs::Err(_, v)) if v.is_empty() => p.used = now(ttl),
                (POp::In(..), PObs::Written(_)) => {
                    p.dead = true;
                    p.used = now(ttl);
                }
                (POp::Kill(_), PObs::Killed(..)) | (POp::Kill(_), PObs::Io(_)) => {
                    let id = p.id;
                    if !crate::rig::eventually(Duration::from_secs(10), || !running(id)) {
                        return Err(("runs-on", format!("process {} was killed ({:?}) but still runs", id, obs)));
                    }
                    ps.remove(k);
                }
                x => return Err(("outcome", format!("process {} (ended: {}, told dead: {}): {:?}", p.id, p.dead, p.told_dead, x))),
            }
            // processes that must be there run
            let at: Vec<bool> = ps.iter().map(|p| running(p.id)).collect();
            let now = Instant::now();
            for (p, run) in ps.iter().zip(at) {
                if !p.dead && p.used.must_be_there(now) && !run {
                    return Err(("evicted-early", format!("process {} was used {:?} before (lifetime {:?}) but does not run", p.id, now - p.used.after, ttl)));
                }
            }
        }
        // all left alone: none runs on, and none is left behind as a zombie
        let limit = longest + cleanup + Duration::from_secs(10);
        if !crate::rig::eventually(limit, || all.iter().all(|id| !running(*id))) && stall.worst_ms() < 1000 {
            let left: Vec<_> = all.iter().filter(|id| running(**id)).collect();
            return Err(("not-evicted", format!("processes {:?} still run {:?} after the last use", left, limit)));
        }
        for p in &ps {
            // asked once, after it must be gone
            let wait = Duration::from_millis(1).max((p.used.until + p.used.max_ttl + slack).saturating_duration_since(Instant::now())) + Duration::from_millis(5);
            std::thread::sleep(wait);
            let obs = d.ask(&mut r, &POp::Status(p.id)).map_err(na)?;
            if obs != PObs::Io(std::io::ErrorKind::InvalidInput) && stall.worst_ms() < 150 {
                return Err(("not-evicted", format!("process {} (told dead: {}) was not used for more than {:?} but its status is {:?}", p.id, p.told_dead, p.used.max_ttl + slack, obs)));
            }
        }
        Ok(())
    })();
    let zombies: Vec<u32> = all.iter().cloned().filter(|id| pid_state(*id).is_some()).collect();
    c.eval();
    c.count("requests", d.asked);
    c.count("processes", all.len() as u64);
    c.count("kept_as_required", kept);
    c.count("evicted_as_required", evicted);
    c.count("dead_kept_as_required", dead_kept);
    c.count("dead_evicted_as_required", dead_evicted);
    c.count("either_allowed", unclear);
    c.count("zombies_at_end", zombies.len() as u64);
    if kept > 0 && evicted > 0 {
        c.distinct(&log);
    }
    d.close();
    for id in all {
        if running(id) {
            unsafe { libc::kill(id as i32, libc::SIGKILL) };
        }
    }
    if let Err((k, m)) = res {
        c.violation(&format!("evict-{}", k), &m, json!({"case": i, "ttl_ms": ttl.as_millis() as u64, "dead_ttl_ms": dead_ttl.as_millis() as u64, "last": trace.iter().rev().take(15).collect::<Vec<_>>()}));
    }
}
