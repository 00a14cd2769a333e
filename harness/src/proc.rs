//! Monitors of remote processes: C15 (what goes through their pipes) and
//! C16 (that they run as asked, and what is reported of their life).
//! The processes are this very program, started as `mon child …`.
use crate::common::*;
use crate::kinds::*;
use crate::rig::*;
use over_there::core::{
    reply, request, AskError, ConnectedClient, ExecAskError, LazilyTransformedRequest, LocalProc, RemoteProc, Reply, ReplyError, Request,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::json;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn exe() -> String {
    std::env::current_exe().unwrap().display().to_string()
}

// ------------------------------------------------------------------ children
/// What a child process does; runs instead of the monitors.
pub fn child(a: &[String]) -> i32 {
    // SIGPIPE and the like end it; it never outlives its reader for long
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(120));
        std::process::exit(250);
    });
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let mut out = io::stdout();
    let mut err = io::stderr();
    match a.get(0).map(|x| x.as_str()).unwrap_or("") {
        // flood SEED OUT ERR: as much as fits, as fast as it goes
        "flood" => {
            let (o, e) = (stream(n(1), n(2) as usize), stream(n(1) + 1, n(3) as usize));
            let t = std::thread::spawn(move || io::stderr().write_all(&e).is_err());
            let bad = out.write_all(&o).and_then(|_| out.flush()).is_err() | t.join().unwrap_or(true);
            if bad { 251 } else { 0 }
        }
        "nonces" => {
            let c = crate::kinds::make_crypt(crate::kinds::CryptKind::Gcm128, &[1; 64]);
            let d = crate::kinds::make_crypt(crate::kinds::CryptKind::Siv128, &[1; 64]);
            for k in 0..n(1) {
                use over_there::core::transport::crypto::Encrypter;
                let a = if k % 2 == 0 { c.new_encrypt_associated_data() } else { d.new_encrypt_associated_data() };
                let _ = writeln!(out, "{}", hex(a.nonce_slice().unwrap_or_default()));
            }
            0
        }
        // emit SEED OUT ERR CODE PAUSE: two streams, in pieces
        "emit" => {
            let mut r = StdRng::seed_from_u64(n(1));
            let (o, e) = (stream(n(1), n(2) as usize), stream(n(1) + 1, n(3) as usize));
            let (mut i, mut j) = (0, 0);
            while i < o.len() || j < e.len() {
                let k = if r.gen_bool(0.5) { r.gen_range(1, 100) } else { r.gen_range(1, 5000) };
                if (r.gen() && i < o.len()) || j == e.len() {
                    let k = k.min(o.len() - i);
                    if out.write_all(&o[i..i + k]).and_then(|_| out.flush()).is_err() { return 251 }
                    i += k;
                } else {
                    let k = k.min(e.len() - j);
                    if err.write_all(&e[j..j + k]).is_err() { return 251 }
                    j += k;
                }
                if n(5) > 0 && r.gen_bool(0.15) {
                    std::thread::sleep(Duration::from_millis(r.gen_range(0, n(5))));
                }
            }
            n(4) as i32
        }
        // echo N CODE: copies N bytes of stdin to stdout
        "echo" => {
            let mut left = n(1) as usize;
            let mut buf = vec![0u8; 10_000];
            let mut i = io::stdin();
            while left > 0 {
                let k = buf.len().min(left);
                match i.read(&mut buf[..k]) {
                    Ok(0) | Err(_) => return 252,
                    Ok(k) => {
                        if out.write_all(&buf[..k]).and_then(|_| out.flush()).is_err() { return 251 }
                        left -= k;
                    }
                }
            }
            n(2) as i32
        }
        // wait CODE: until a byte arrives on stdin, then exits with it (or CODE)
        "wait" => {
            let mut b = [0u8];
            match io::stdin().read(&mut b) {
                Ok(1) => b[0] as i32,
                _ => n(1) as i32,
            }
        }
        // until FILE CODE: until the file exists
        "until" => {
            while !std::path::Path::new(&a[1]).exists() {
                std::thread::sleep(Duration::from_millis(3));
            }
            n(2) as i32
        }
        // gated FILE SEED N CODE: writes N bytes once the file exists
        "gated" => {
            while !std::path::Path::new(&a[1]).exists() {
                std::thread::sleep(Duration::from_millis(3));
            }
            if out.write_all(&stream(n(2), n(3) as usize)).and_then(|_| out.flush()).is_err() { return 251 }
            n(4) as i32
        }
        "exit" => n(1) as i32,
        // sig N: dies of a signal
        "sig" => {
            unsafe { libc::raise(n(1) as i32) };
            253
        }
        // leave CODE MS: exits while a child of its own keeps the pipes open
        "leave" => {
            let _ = std::process::Command::new(exe()).args(&["child", "sleep", &a[2]]).spawn();
            n(1) as i32
        }
        "sleep" => {
            std::thread::sleep(Duration::from_millis(n(1)));
            0
        }
        // args …: reports how it was started
        "args" => {
            let cwd = std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default();
            print!("{}", json!({"cwd": cwd, "args": &a[1..]}));
            let _ = out.flush();
            0
        }
        _ => 254,
    }
}
fn child_args(a: &[&str]) -> Vec<String> {
    std::iter::once("child").chain(a.iter().cloned()).map(|x| x.to_string()).collect()
}

// ------------------------------------------------------------------ requests
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PObs {
    Started(u32),
    Written(u32),
    Out(u32, Vec<u8>),
    Err(u32, Vec<u8>),
    Status(u32, bool, Option<i32>),
    Killed(u32, Option<i32>),
    Io(io::ErrorKind),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum POp {
    Exec { cmd: String, args: Vec<String>, i: bool, o: bool, e: bool, dir: Option<String> },
    In(u32, Vec<u8>),
    Out(u32),
    Err(u32),
    Status(u32),
    Kill(u32),
}
pub fn to_request(op: &POp) -> Request {
    match op.clone() {
        POp::Exec { cmd, args, i, o, e, dir } => Request::ExecProc(request::ExecProcArgs { command: cmd, args, stdin: i, stdout: o, stderr: e, current_dir: dir }),
        POp::In(id, input) => Request::WriteProcStdin(request::WriteProcStdinArgs { id, input }),
        POp::Out(id) => Request::ReadProcStdout(request::ReadProcStdoutArgs { id }),
        POp::Err(id) => Request::ReadProcStderr(request::ReadProcStderrArgs { id }),
        POp::Status(id) => Request::ReadProcStatus(request::ReadProcStatusArgs { id }),
        POp::Kill(id) => Request::KillProc(request::KillProcArgs { id }),
    }
}
pub fn from_reply(r: Reply) -> PObs {
    match r {
        Reply::ProcStarted(a) => PObs::Started(a.id),
        Reply::ProcStdinWritten(a) => PObs::Written(a.id),
        Reply::ProcStdoutContents(a) => PObs::Out(a.id, a.output),
        Reply::ProcStderrContents(a) => PObs::Err(a.id, a.output),
        Reply::ProcStatus(a) => PObs::Status(a.id, a.is_alive, a.exit_code),
        Reply::ProcKilled(a) => PObs::Killed(a.id, a.exit_code),
        Reply::Error(ReplyError::Io(a)) => {
            let e: io::Error = a.into();
            PObs::Io(e.kind())
        }
        x => PObs::Other(truncate(&format!("{:?}", x), 300)),
    }
}
async fn typed(cl: &mut ConnectedClient, op: &POp) -> Result<PObs, AskError> {
    fn p(id: u32) -> RemoteProc {
        RemoteProc::from(reply::ProcStartedArgs { id })
    }
    let res: Result<Reply, ExecAskError> = match op.clone() {
        POp::Exec { cmd, args, i: true, o: true, e: true, dir: None } => cl.ask_exec_proc(cmd, args).await.map(Reply::ProcStarted),
        POp::Exec { cmd, args, i: true, o: true, e: true, dir: Some(d) } => cl.ask_exec_proc_with_current_dir(cmd, args, d).await.map(Reply::ProcStarted),
        POp::Exec { cmd, args, i, o, e, dir } => cl.ask_exec_proc_with_options(cmd, args, i, o, e, dir).await.map(Reply::ProcStarted),
        POp::In(id, d) => cl.ask_write_proc_stdin(&p(id), &d).await.map(Reply::ProcStdinWritten),
        POp::Out(id) => cl.ask_read_proc_stdout(&p(id)).await.map(Reply::ProcStdoutContents),
        POp::Err(id) => cl.ask_read_proc_stderr(&p(id)).await.map(Reply::ProcStderrContents),
        POp::Status(id) => cl.ask_read_proc_status(&p(id)).await.map(Reply::ProcStatus),
        POp::Kill(id) => cl.ask_proc_kill(&p(id)).await.map(Reply::ProcKilled),
    };
    match res {
        Ok(r) => Ok(from_reply(r)),
        Err(ExecAskError::IoError(e)) => Ok(PObs::Io(e.kind())),
        Err(ExecAskError::GeneralAskFailed(AskError::InvalidResponse { reply })) => Ok(PObs::Other(format!("not understood by the client: {:?}", reply))),
        Err(ExecAskError::GeneralAskFailed(e)) => Err(e),
        #[allow(unreachable_patterns)]
        Err(e) => Ok(PObs::Other(format!("{:?}", e))),
    }
}

/// A server, some clients and a way to ask through any of them.
pub struct Desk {
    pub rt: tokio::runtime::Runtime,
    pub cls: Vec<ConnectedClient>,
    pub srv: Srv,
    pub asked: u64,
}
impl Desk {
    pub fn open(r: &mut StdRng, f: impl FnOnce(&mut SrvCfg)) -> Option<Desk> {
        Desk::open_n(r, 1, f)
    }
    pub fn open_n(r: &mut StdRng, least: usize, f: impl FnOnce(&mut SrvCfg)) -> Option<Desk> {
        let mut cfg = SrvCfg::noop(Proto::Tcp);
        if r.gen_bool(0.3) {
            cfg.auth = make_auth(AuthKind::Sha256, b"k");
            cfg.crypt = make_crypt(CryptKind::GcmSiv256, &[3; 64]);
        }
        f(&mut cfg);
        let (auth, crypt) = (cfg.auth.clone(), cfg.crypt.clone());
        let srv = cfg.start().ok()?;
        let mut rt = runtime(1);
        let mut cls = vec![];
        for _ in 0..r.gen_range(least, least + 3) {
            if let Ok(mut x) = rt.block_on(connect(Proto::Tcp, srv.addr, &auth, &crypt)) {
                x.timeout = Duration::from_secs(30);
                cls.push(x);
            }
        }
        if cls.is_empty() {
            return None;
        }
        Some(Desk { rt, cls, srv, asked: 0 })
    }
    pub fn raw(&mut self, r: &mut StdRng, q: Request) -> Result<Reply, AskError> {
        let n = self.cls.len();
        self.asked += 1;
        let cl = &mut self.cls[r.gen_range(0, n)];
        self.rt.block_on(cl.ask(q))
    }
    pub fn ask(&mut self, r: &mut StdRng, op: &POp) -> Result<PObs, String> {
        match r.gen_range(0, 4) {
            0 => self.raw(r, to_request(op)).map(from_reply),
            1 => {
                let q = Request::Sequence(request::SequenceArgs { operations: vec![LazilyTransformedRequest::new(to_request(op), vec![])] });
                match self.raw(r, q) {
                    Ok(Reply::Sequence(mut s)) if s.results.len() == 1 => Ok(from_reply(s.results.remove(0))),
                    Ok(x) => Ok(PObs::Other(format!("{:?}", x))),
                    Err(e) => Err(e),
                }
            }
            _ => {
                self.asked += 1;
                let n = self.cls.len();
                let cl = &mut self.cls[r.gen_range(0, n)];
                self.rt.block_on(typed(cl, op))
            }
        }
        .map_err(|e| format!("{} was not answered: {:?}", truncate(&format!("{:?}", op), 200), e))
    }
    pub fn batch(&mut self, r: &mut StdRng, ops: &[POp]) -> Result<Vec<PObs>, String> {
        let q = Request::Batch(request::BatchArgs { operations: ops.iter().map(to_request).collect() });
        match self.raw(r, q) {
            Ok(Reply::Batch(b)) if b.results.len() == ops.len() => Ok(b.results.into_iter().map(from_reply).collect()),
            x => Err(format!("a batch of {} was answered with {}", ops.len(), truncate(&format!("{:?}", x), 300))),
        }
    }
    pub fn close(self) {
        drop(self.cls);
        self.rt.shutdown_timeout(Duration::from_millis(50));
        self.srv.stop();
    }
}

/// `None` if there is no such process, otherwise its state letter.
pub fn pid_state(pid: u32) -> Option<char> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    rest.trim().chars().next()
}
pub fn running(pid: u32) -> bool {
    match pid_state(pid) {
        None | Some('Z') | Some('X') => false,
        _ => true,
    }
}

// ------------------------------------------------------------------ C15
/// One process and what must still come out of it.
struct Pipe {
    id: u32,
    out: Vec<u8>,
    err: Vec<u8>,
    at: [usize; 2],
    /// groups of whole inputs; those of one group were written at the same time
    groups: Vec<Vec<Vec<u8>>>,
    echo: bool,
    echoed: usize,
    to_write: usize,
    code: i32,
    pieces: u64,
}
impl Pipe {
    fn done(&self) -> bool {
        self.at[0] == self.out.len() && self.at[1] == self.err.len() && self.groups.is_empty() && self.to_write == 0
    }
    /// Consumes observed output, in order.
    fn take(&mut self, which: usize, got: &[u8]) -> Result<(), String> {
        if !got.is_empty() {
            self.pieces += 1;
        }
        let name = ["stdout", "stderr"][which];
        if self.echo && which == 0 {
            let (id, out, groups) = (self.id, &mut self.out, &mut self.groups);
            out.extend_from_slice(got); // what is not matched yet
            self.echoed += got.len();
            loop {
                let g = match groups.first_mut() {
                    None if out.is_empty() => return Ok(()),
                    None => return Err(format!("process {} put out {} bytes more than were written to it", id, out.len())),
                    Some(g) => g,
                };
                if let Some(k) = g.iter().position(|c| out.starts_with(c)) {
                    let c = g.remove(k);
                    out.drain(..c.len());
                    if g.is_empty() {
                        groups.remove(0);
                    }
                    continue;
                }
                if g.iter().any(|c| c.starts_with(out)) {
                    return Ok(());
                }
                return Err(format!("process {} received {} which none of the inputs due begins with", id, hex(out)));
            }
        }
        let want = if which == 0 { &self.out } else { &self.err };
        let at = self.at[which];
        if want.len() < at + got.len() || want[at..at + got.len()] != *got {
            let k = got.iter().zip(want[at..].iter()).take_while(|(a, b)| a == b).count();
            return Err(format!("{} of process {}: {} bytes read at offset {} of {} differ from what it wrote at byte {}", name, self.id, got.len(), at, want.len(), at + k));
        }
        self.at[which] += got.len();
        Ok(())
    }
}

pub fn c15(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    let next = std::sync::Arc::new(AtomicU64::new(0));
    par_cases(ctx, ctx.pick(200, 8000), Duration::from_secs(ctx.pick(45, 600)), move |i| pipes(&c, i, &next));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(16, 120), Duration::from_secs(ctx.pick(60, 400)), move |i| hoard(&c, i));
    ctx.report_panics("processes were used");
    ctx.finish(
        "processes that write 1-3 MB (thorough: up to 12 MB) before anybody reads; 2-5 processes at a time under one server: emitters of two seeded streams (up to 300 KB each, in pieces with pauses) \
         and echoers fed with marked inputs (up to 100 KB each), read and written by 1-3 clients through typed, raw, sequenced \
         and batched requests, before and after the processes end; every byte read is compared with what is due; \
         non-trivial = at least 3 non-empty reads of one process; distinct by sizes and pieces",
        40,
        &["inputs that the process does not read and that exceed the pipe are excluded (see DESIGN.md, known finding)"],
    )
}

fn pipes(c: &Ctx, i: u64, next: &AtomicU64) {
    let mut r = c.rng("pipes", i);
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let res = (|| -> Result<(), (&'static str, String)> {
        let mut ps: Vec<Pipe> = vec![];
        for _ in 0..r.gen_range(2, 6) {
            let seed = h64(&(c.seed(), i, next.fetch_add(1, Ordering::Relaxed))) >> 8;
            let size = |r: &mut StdRng| match r.gen_range(0, 6) { 0 => 0, 1 => r.gen_range(50_000, 300_000), 2 => *[1023usize, 1024, 1025, 2048, 65536, 65537].choose(r).unwrap(), _ => r.gen_range(1, 6000) };
            let code = r.gen_range(0, 200);
            let echo = r.gen_bool(0.4);
            let (o, e) = (size(&mut r), size(&mut r));
            let op = if echo {
                POp::Exec { cmd: exe(), args: child_args(&["echo", &o.to_string(), &code.to_string()]), i: true, o: true, e: r.gen(), dir: None }
            } else {
                let pause = if r.gen() { 0 } else { r.gen_range(1, 10) };
                POp::Exec { cmd: exe(), args: child_args(&["emit", &seed.to_string(), &o.to_string(), &e.to_string(), &code.to_string(), &pause.to_string()]), i: r.gen(), o: true, e: true, dir: None }
            };
            let errs = matches!(op, POp::Exec { e: true, .. });
            match d.ask(&mut r, &op).map_err(|e| ("no-answer", e))? {
                PObs::Started(id) => {
                    if ps.iter().any(|p| p.id == id) {
                        return Err(("same-id", format!("two processes were given id {}", id)));
                    }
                    let _ = errs;
                    ps.push(Pipe {
                        id,
                        out: if echo { vec![] } else { stream(seed, o) },
                        err: if echo { vec![] } else { stream(seed + 1, e) },
                        at: [0, 0],
                        groups: vec![],
                        echo,
                        echoed: 0,
                        to_write: if echo { o } else { 0 },
                        code,
                        pieces: 0,
                    });
                    if !errs {
                        ps.last_mut().unwrap().err = vec![];
                        ps.last_mut().unwrap().at[1] = 0;
                    }
                }
                x => return Err(("exec", format!("{:?} gave {:?}", op, x))),
            }
        }
        let mut mark = 0u64;
        let mut chunk = |r: &mut StdRng, left: &mut usize| {
            mark += 1;
            let want = match r.gen_range(0, 5) { 0 => r.gen_range(20_000, 100_000), 1 => 65_536, _ => r.gen_range(9, 3000) };
            let n = want.min(*left);
            let mut v = mark.to_be_bytes().to_vec();
            v.extend(stream(mark ^ 0xabcdef, n.saturating_sub(8)));
            v.truncate(n);
            *left -= n;
            v
        };
        let mut last_progress = Instant::now();
        let mut stall = Stall::start();
        while ps.iter().any(|p| !p.done()) {
            let k = r.gen_range(0, ps.len());
            let p = &mut ps[k];
            let before = (p.at, p.pieces, p.to_write);
            match r.gen_range(0, 10) {
                0..=3 if p.echo && p.to_write > 0 => {
                    let n = if r.gen_bool(0.3) { r.gen_range(2, 4) } else { 1 };
                    let mut cs = vec![];
                    for _ in 0..n {
                        if p.to_write > 0 {
                            cs.push(chunk(&mut r, &mut p.to_write));
                        }
                    }
                    let ops: Vec<POp> = cs.iter().map(|x| POp::In(p.id, x.clone())).collect();
                    let obs = if ops.len() == 1 { vec![d.ask(&mut r, &ops[0]).map_err(|e| ("no-answer", e))?] } else { d.batch(&mut r, &ops).map_err(|e| ("no-answer", e))? };
                    if obs.iter().any(|o| *o != PObs::Written(p.id)) {
                        return Err(("stdin", format!("writing to process {} that reads everything gave {:?}", p.id, obs)));
                    }
                    p.groups.push(cs);
                }
                4 => {
                    // several reads at once: together they are the next bytes, in some order
                    let n = r.gen_range(2, 4);
                    let both = p.echo;
                    let ops: Vec<POp> = (0..n).map(|_| if both || r.gen_bool(0.7) { POp::Out(p.id) } else { POp::Err(p.id) }).collect();
                    let obs = d.batch(&mut r, &ops).map_err(|e| ("no-answer", e))?;
                    for which in 0..2 {
                        let mut parts: Vec<Vec<u8>> = vec![];
                        for (op, o) in ops.iter().zip(&obs) {
                            match (op, o) {
                                (POp::Out(_), PObs::Out(id, v)) if *id == p.id => if which == 0 { parts.push(v.clone()) },
                                (POp::Err(_), PObs::Err(id, v)) if *id == p.id => if which == 1 { parts.push(v.clone()) },
                                x => return Err(("read", format!("{:?}", x))),
                            }
                        }
                        parts.retain(|x| !x.is_empty());
                        if parts.len() <= 1 {
                            p.take(which, &parts.concat()).map_err(|e| ("bytes", e))?;
                        } else {
                            // try every order
                            let mut ok = None;
                            let mut err = String::new();
                            permute(parts.len(), &mut |perm| {
                                if ok.is_none() {
                                    let all: Vec<u8> = perm.iter().flat_map(|k| parts[*k].clone()).collect();
                                    let mut q = Pipe { id: p.id, out: p.out.clone(), err: p.err.clone(), at: p.at, groups: p.groups.clone(), ..*p };
                                    match q.take(which, &all) {
                                        Ok(()) => ok = Some(q),
                                        Err(e) => err = e,
                                    }
                                }
                            });
                            match ok {
                                Some(q) => *p = q,
                                None => return Err(("bytes", format!("racing reads, in every order: {}", err))),
                            }
                        }
                    }
                }
                5 if !p.echo => match d.ask(&mut r, &POp::Err(p.id)).map_err(|e| ("no-answer", e))? {
                    PObs::Err(id, v) if id == p.id => p.take(1, &v).map_err(|e| ("bytes", e))?,
                    x => return Err(("read", format!("reading stderr of {} gave {:?}", p.id, x))),
                },
                6 => match d.ask(&mut r, &POp::Status(p.id)).map_err(|e| ("no-answer", e))? {
                    PObs::Status(id, _, _) if id == p.id => {}
                    x => return Err(("status", format!("status of {} gave {:?}", p.id, x))),
                },
                7 => std::thread::sleep(Duration::from_millis(r.gen_range(0, 15))),
                _ => match d.ask(&mut r, &POp::Out(p.id)).map_err(|e| ("no-answer", e))? {
                    PObs::Out(id, v) if id == p.id => p.take(0, &v).map_err(|e| ("bytes", e))?,
                    x => return Err(("read", format!("reading stdout of {} gave {:?}", p.id, x))),
                },
            }
            if (p.at, p.pieces, p.to_write) != before {
                last_progress = Instant::now();
                stall = Stall::start();
            }
            if last_progress.elapsed() > Duration::from_secs(15) {
                if stall.worst_ms() > 1000 {
                    return Err(("", String::new()));
                }
                let p = ps.iter().find(|p| !p.done()).unwrap();
                return Err(("lost", format!("output of process {} (state {:?}) stopped at {:?} of ({}, {}), {} inputs pending", p.id, pid_state(p.id), p.at, p.out.len(), p.err.len(), p.groups.len())));
            }
        }
        // nothing more may come, and the exit code arrives
        for p in ps.iter_mut() {
            let t = Instant::now();
            loop {
                match d.ask(&mut r, &POp::Status(p.id)).map_err(|e| ("no-answer", e))? {
                    PObs::Status(id, false, code) if id == p.id => {
                        if code != Some(p.code) {
                            return Err(("status", format!("process {} exited with {} but {:?} was reported", p.id, p.code, code)));
                        }
                        break;
                    }
                    PObs::Status(id, true, None) if id == p.id => {}
                    x => return Err(("status", format!("{:?}", x))),
                }
                if t.elapsed() > Duration::from_secs(20) {
                    return Err(("", String::new()));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            if let PObs::Out(_, v) = d.ask(&mut r, &POp::Out(p.id)).map_err(|e| ("no-answer", e))? {
                p.take(0, &v).map_err(|e| ("bytes", e))?;
            }
            if p.pieces >= 3 {
                c.distinct(&(p.echo, p.out.len() + p.echoed, p.err.len(), p.pieces));
            }
            c.count("processes", 1);
            c.count("nonempty_reads", p.pieces);
            c.count("bytes_read", (p.at[0] + p.at[1] + p.echoed) as u64);
        }
        Ok(())
    })();
    c.eval();
    c.count("requests", d.asked);
    d.close();
    match res {
        Ok(()) => {}
        Err(("", _)) => c.inconclusive("the machine stalled"),
        Err((k, m)) => c.violation(&format!("pipe-{}", k), &m, json!({"case": i})),
    }
}
/// Output that piles up, megabytes of it, before anybody reads.
fn hoard(c: &Ctx, i: u64) {
    let mut r = c.rng("hoard", i);
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    for cl in &mut d.cls {
        cl.timeout = Duration::from_secs(120);
    }
    let seed = h64(&(c.seed(), i)) >> 8;
    let big = c.pick(3_000_000, 12_000_000);
    let (o, e) = if r.gen() { (r.gen_range(big / 3, big), r.gen_range(0, 400_000)) } else { (r.gen_range(0, 400_000), r.gen_range(big / 3, big)) };
    let want = [stream(seed, o), stream(seed + 1, e)];
    let res = (|| -> Result<(), (&'static str, String)> {
        let op = POp::Exec { cmd: exe(), args: child_args(&["flood", &seed.to_string(), &o.to_string(), &e.to_string()]), i: false, o: true, e: true, dir: None };
        let id = match d.ask(&mut r, &op).map_err(|e| ("no-answer", e))? {
            PObs::Started(id) => id,
            x => return Err(("exec", format!("{:?}", x))),
        };
        let stall = Stall::start();
        // nobody reads until it has written everything
        let early = r.gen_bool(0.3);
        if !early && !eventually(Duration::from_secs(40), || !running(id)) {
            if stall.worst_ms() > 1000 {
                return Err(("", String::new()));
            }
            return Err(("blocked", format!("a process whose output of {} and {} bytes is not read did not get to its end in 40 s", o, e)));
        }
        let mut at = [0usize, 0];
        let t = Instant::now();
        while at[0] < o || at[1] < e {
            for (k, op) in [POp::Out(id), POp::Err(id)].iter().enumerate() {
                let v = match d.ask(&mut r, op).map_err(|e| ("no-answer", e))? {
                    PObs::Out(x, v) | PObs::Err(x, v) if x == id => v,
                    x => return Err(("read", truncate(&format!("{:?}", x), 300))),
                };
                if want[k][at[k]..].get(..v.len()) != Some(&v[..]) {
                    return Err(("bytes", format!("after {} of {} bytes of stream {}, {} bytes that are not next arrived", at[k], want[k].len(), k, v.len())));
                }
                at[k] += v.len();
                c.max("largest_read", v.len() as u64);
            }
            if t.elapsed() > Duration::from_secs(60) {
                if stall.worst_ms() > 1000 {
                    return Err(("", String::new()));
                }
                return Err(("lost", format!("of {} and {} bytes written, {:?} could be read", o, e, at)));
            }
        }
        c.count("bytes_hoarded", (o + e) as u64);
        c.distinct(&("hoard", o, e, early));
        Ok(())
    })();
    c.eval();
    d.close();
    match res {
        Ok(()) => {}
        Err(("", _)) => c.inconclusive("the machine stalled"),
        Err((k, m)) => c.violation(&format!("hoard-{}", k), &m, json!({"case": i})),
    }
}

fn permute(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == v.len() {
            return f(v);
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(v, k + 1, f);
            v.swap(k, i);
        }
    }
    go(&mut (0..n).collect(), 0, f)
}

// ------------------------------------------------------------------ C16
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Life {
    Waiting,
    Released(Option<i32>),
    Dead(Option<i32>),
    Killed,
}
struct P16 {
    id: u32,
    life: Life,
    gate: Option<std::path::PathBuf>,
    pipes: (bool, bool, bool),
    code: i32,
}

pub fn c16(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(160, 6000), Duration::from_secs(ctx.pick(45, 600)), move |i| {
        if i % 4 == 3 { local(&c, i) } else { lives(&c, i) }
    });
    for i in 0..ctx.pick(2, 10) {
        if !ctx.violated() {
            flock(ctx, i);
        }
    }
    ctx.report_panics("processes were used");
    ctx.finish(
        "histories of 40-120 requests on 3-8 processes whose life the monitor controls (released through stdin or a file, \
         killed by request, by racing requests, by a signal of their own or from outside, leaving descendants behind, or \
         refusing to start), with every combination of pipes, arguments and directories, and the same for LocalProc \
         directly; crowds of 60-160 processes at once; what is reported is compared with what the monitor made the process do and with /proc; non-trivial = \
         at least one death seen; distinct by the sequence of requests and outcomes",
        60,
        &["no other program signals the processes or reuses their ids during a case"],
    )
}

fn lives(c: &Ctx, i: u64) {
    let mut r = c.rng("lives", i);
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut ps: Vec<P16> = vec![];
    let mut log: Vec<(u8, u8)> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut deaths = 0;
    let res = (|| -> Result<(), (&'static str, String)> {
        let na = |e: String| ("no-answer", e);
        let n = r.gen_range(40, 120);
        for step in 0..n {
            let alive: Vec<usize> = (0..ps.len()).filter(|k| ps[*k].life == Life::Waiting).collect();
            let which = if ps.len() < 3 { 0 } else { r.gen_range(0, 20) };
            match which {
                0..=2 if ps.len() < 9 => {
                    let (mut pi, po, pe) = (r.gen(), r.gen(), r.gen());
                    let gate = if r.gen() { Some(root.join(format!("gate{}", step))) } else { None };
                    let code = r.gen_range(0, 256);
                    let args = match &gate {
                        Some(g) => child_args(&["until", &g.display().to_string(), &code.to_string()]),
                        None => {
                            pi = true;
                            child_args(&["wait", "0"])
                        }
                    };
                    let op = POp::Exec { cmd: exe(), args, i: pi, o: po, e: pe, dir: None };
                    match d.ask(&mut r, &op).map_err(na)? {
                        PObs::Started(id) => {
                            if ps.iter().any(|p| p.id == id && !matches!(p.life, Life::Dead(_) | Life::Killed)) {
                                return Err(("same-id", format!("id {} was given to two processes", id)));
                            }
                            if !running(id) {
                                return Err(("not-running", format!("process {} was reported as started but /proc says {:?}", id, pid_state(id))));
                            }
                            ps.retain(|p| p.id != id);
                            ps.push(P16 { id, life: Life::Waiting, gate, pipes: (pi, po, pe), code });
                        }
                        x => return Err(("exec", format!("{:?} gave {:?}", op, x))),
                    }
                    log.push((0, 0));
                }
                3 => {
                    // started as asked
                    let words = ["", " ", "a b", "--help", "\u{fc}\u{1F980}", "$HOME", "*", "\"q'", "-", "x=y", "line\nbreak"];
                    let long = "\u{e9}y".repeat(r.gen_range(1000, 30_000));
                    let many = if r.gen_bool(0.1) { r.gen_range(5, 3000) } else { r.gen_range(0, 5) };
                    let mut extra: Vec<&str> = (0..many).map(|_| *words.choose(&mut r).unwrap()).collect();
                    if r.gen_bool(0.1) {
                        extra.push(&long);
                    }
                    let sub = root.join("dir \u{e9}");
                    let _ = std::fs::create_dir(&sub);
                    let dir = match r.gen_range(0, 4) { 0 => Some(sub.clone()), 1 => Some(sub.join("..")), 2 => Some(sub.join(".")), _ => None };
                    let want = match &dir { Some(p) => std::fs::canonicalize(p).unwrap(), None => std::env::current_dir().unwrap() };
                    let mut a = vec!["args"];
                    a.extend(&extra);
                    let op = POp::Exec { cmd: exe(), args: child_args(&a), i: r.gen(), o: true, e: r.gen(), dir: dir.map(|p| p.display().to_string()) };
                    let id = match d.ask(&mut r, &op).map_err(na)? { PObs::Started(id) => id, x => return Err(("exec", format!("{:?} gave {:?}", op, x))) };
                    let want = json!({"cwd": want.display().to_string(), "args": extra}).to_string();
                    let mut got = vec![];
                    let t = Instant::now();
                    let mut dead = false;
                    while t.elapsed() < Duration::from_secs(20) {
                        match d.ask(&mut r, &POp::Out(id)).map_err(na)? {
                            PObs::Out(_, v) => got.extend(v),
                            x => return Err(("exec", format!("{:?}", x))),
                        }
                        if dead && (got.len() >= want.len() || serde_json::from_slice::<serde_json::Value>(&got).is_ok()) {
                            break;
                        }
                        match d.ask(&mut r, &POp::Status(id)).map_err(na)? {
                            PObs::Status(_, a, code) => {
                                if !a && code != Some(0) {
                                    return Err(("exec", format!("{:?} ended with {:?}", op, code)));
                                }
                                dead = !a;
                            }
                            x => return Err(("exec", format!("{:?}", x))),
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                    if t.elapsed() >= Duration::from_secs(20) && got.len() < want.len() && want.as_bytes().starts_with(&got) {
                        return Err(("", String::new()));
                    }
                    if got != want.as_bytes() {
                        return Err(("exec", truncate(&format!("{:?} ran as {} instead of {}", op, String::from_utf8_lossy(&got), want), 2000)));
                    }
                    c.count("started_as_asked", 1);
                }
                4 => {
                    // cannot start
                    let op = match r.gen_range(0, 4) {
                        0 => POp::Exec { cmd: root.join("nothing").display().to_string(), args: vec![], i: true, o: true, e: true, dir: None },
                        1 => POp::Exec { cmd: root.display().to_string(), args: vec![], i: true, o: true, e: true, dir: None },
                        2 => POp::Exec { cmd: exe(), args: child_args(&["exit", "0"]), i: true, o: true, e: true, dir: Some(root.join("nothing").display().to_string()) },
                        _ => POp::Exec { cmd: "no-such-command-\u{fc}".into(), args: vec![], i: false, o: false, e: false, dir: None },
                    };
                    match d.ask(&mut r, &op).map_err(na)? {
                        PObs::Io(_) => {}
                        x => return Err(("exec", format!("{:?} gave {:?}", op, x))),
                    }
                    log.push((4, 0));
                }
                5 => {
                    // no such process
                    let mut id = r.gen::<u32>() | 0x8000_0000;
                    if let Some(p) = ps.iter().find(|p| p.life == Life::Killed) {
                        if r.gen_bool(0.7) {
                            id = p.id;
                        }
                    }
                    let op = [POp::In(id, vec![1]), POp::Out(id), POp::Err(id), POp::Status(id), POp::Kill(id)].choose(&mut r).unwrap().clone();
                    match d.ask(&mut r, &op).map_err(na)? {
                        PObs::Io(io::ErrorKind::InvalidInput) => {}
                        x => return Err(("unknown-id", format!("{:?} of an unknown process gave {:?}", op, x))),
                    }
                    log.push((5, 0));
                }
                6..=10 if !ps.is_empty() => {
                    let k = r.gen_range(0, ps.len());
                    let st = d.ask(&mut r, &POp::Status(ps[k].id)).map_err(na)?;
                    trace.push(format!("status {} {:?} -> {:?}", ps[k].id, ps[k].life, st));
                    check(&mut ps[k], &st)?;
                    log.push((6, matches!(st, PObs::Status(_, true, _)) as u8));
                }
                11 => {
                    // release one
                    if let Some(k) = alive.choose(&mut r) {
                        let p = &mut ps[*k];
                        if let Some(g) = &p.gate {
                            std::fs::write(g, b"").unwrap();
                            p.life = Life::Released(Some(p.code));
                        } else {
                            let code: u8 = r.gen();
                            match d.ask(&mut r, &POp::In(p.id, vec![code])).map_err(na)? {
                                PObs::Written(id) if id == p.id => {}
                                x => return Err(("stdin", format!("writing to waiting process {} gave {:?}", p.id, x))),
                            }
                            p.life = Life::Released(Some(code as i32));
                        }
                        trace.push(format!("release {} {:?}", p.id, p.life));
                        let (id, life) = (p.id, p.life);
                        if r.gen_bool(0.7) {
                            deaths += wait_dead(&mut d, &mut r, p).map_err(|e| e)?;
                        }
                        let _ = (id, life);
                        log.push((11, 0));
                    }
                }
                12 => {
                    // from outside
                    if let Some(k) = alive.choose(&mut r) {
                        let p = &mut ps[*k];
                        let sig = *[libc::SIGKILL, libc::SIGTERM, libc::SIGINT, libc::SIGUSR1].choose(&mut r).unwrap();
                        unsafe { libc::kill(p.id as i32, sig) };
                        p.life = Life::Released(None);
                        trace.push(format!("signal {} to {}", sig, p.id));
                        deaths += wait_dead(&mut d, &mut r, p)?;
                        log.push((12, 0));
                    }
                }
                13 | 14 => {
                    // killed by request, or several at once
                    let ks: Vec<usize> = (0..ps.len()).filter(|k| matches!(ps[*k].life, Life::Waiting | Life::Released(_))).collect();
                    if let Some(k) = ks.choose(&mut r) {
                        let (id, life) = (ps[*k].id, ps[*k].life);
                        let n = if which == 14 { r.gen_range(2, 4) } else { 1 };
                        let ops: Vec<POp> = (0..n).map(|_| POp::Kill(id)).collect();
                        let obs = if n == 1 { vec![d.ask(&mut r, &ops[0]).map_err(na)?] } else { d.batch(&mut r, &ops).map_err(na)? };
                        trace.push(format!("kill {} {:?} x{} -> {:?}", id, life, n, obs));
                        let done: Vec<Option<i32>> = obs.iter().filter_map(|o| match o { PObs::Killed(i, c) if *i == id => Some(*c), _ => None }).collect();
                        let failed = obs.iter().filter(|o| **o == PObs::Io(io::ErrorKind::InvalidInput)).count();
                        if done.len() != 1 || failed != n - 1 {
                            return Err(("kill", format!("{} kill requests for running process {} gave {:?}", n, id, obs)));
                        }
                        match (life, done[0]) {
                            (_, None) => {}
                            (Life::Released(Some(c)), Some(x)) if x == c => {}
                            (_, x) => return Err(("kill", format!("process {} ({:?}) was killed with exit code {:?}", id, life, x))),
                        }
                        if pid_state(id).is_some() {
                            return Err(("kill", format!("process {} was reported as killed but /proc says {:?}", id, pid_state(id))));
                        }
                        ps[*k].life = Life::Killed;
                        deaths += 1;
                        log.push((13, n as u8));
                    }
                }
                15 => {
                    // pipes that do not exist
                    if let Some(p) = ps.iter().filter(|p| p.life != Life::Killed).collect::<Vec<_>>().choose(&mut r) {
                        let (op, has) = [(POp::Out(p.id), p.pipes.1), (POp::Err(p.id), p.pipes.2)].choose(&mut r).unwrap().clone();
                        let obs = d.ask(&mut r, &op).map_err(na)?;
                        match (&obs, has) {
                            (PObs::Out(i, v), true) | (PObs::Err(i, v), true) if *i == p.id && v.is_empty() => {}
                            (PObs::Io(io::ErrorKind::BrokenPipe), false) => {}
                            x => return Err(("pipe", format!("{:?} (piped: {}) gave {:?}", op, has, x))),
                        }
                        if !p.pipes.0 {
                            match d.ask(&mut r, &POp::In(p.id, vec![1, 2])).map_err(na)? {
                                PObs::Io(io::ErrorKind::BrokenPipe) => {}
                                x => return Err(("pipe", format!("writing to process {} without stdin gave {:?}", p.id, x))),
                            }
                        } else if let Life::Dead(_) = p.life {
                            match d.ask(&mut r, &POp::In(p.id, vec![1, 2])).map_err(na)? {
                                PObs::Io(_) => {}
                                x => return Err(("pipe", format!("writing to dead process {} gave {:?}", p.id, x))),
                            }
                        }
                        log.push((15, has as u8));
                    }
                }
                16 => {
                    // dies of its own signal, or leaves descendants behind
                    let (args, want) = match r.gen_range(0, 5) {
                        // with output nobody reads
                        3 | 4 => {
                            let code = r.gen_range(0, 256);
                            let size = |r: &mut StdRng| [0, 1, 30, 4096, 70_000, 200_000].choose(r).unwrap().to_string();
                            let (a, b) = (size(&mut r), size(&mut r));
                            (child_args(&["emit", &r.gen::<u16>().to_string(), &a, &b, &code.to_string(), "0"]), Some(code))
                        }
                        0 => (child_args(&["sig", "9"]), None),
                        1 => (child_args(&["sig", "15"]), None),
                        _ => {
                            let code = r.gen_range(0, 256);
                            (child_args(&["leave", &code.to_string(), "1500"]), Some(code))
                        }
                    };
                    let op = POp::Exec { cmd: exe(), args, i: r.gen(), o: r.gen(), e: r.gen(), dir: None };
                    match d.ask(&mut r, &op).map_err(na)? {
                        PObs::Started(id) => {
                            let mut p = P16 { id, life: Life::Released(want), gate: None, pipes: (false, false, false), code: 0 };
                            deaths += wait_dead(&mut d, &mut r, &mut p)?;
                        }
                        x => return Err(("exec", format!("{:?} gave {:?}", op, x))),
                    }
                    log.push((16, 0));
                }
                _ => {
                    // everybody else is as they were
                    for p in ps.iter_mut() {
                        if p.life == Life::Waiting && !running(p.id) {
                            return Err(("died", format!("process {} must be running but /proc says {:?}", p.id, pid_state(p.id))));
                        }
                    }
                    if r.gen() {
                        std::thread::sleep(Duration::from_millis(r.gen_range(0, 5)));
                    }
                }
            }
        }
        for p in ps.iter_mut() {
            let st = d.ask(&mut r, &POp::Status(p.id)).map_err(na)?;
            check(p, &st)?;
        }
        Ok(())
    })();
    let left: Vec<u32> = ps.iter().filter(|p| p.life == Life::Waiting).map(|p| p.id).collect();
    c.eval();
    c.count("requests", d.asked);
    c.count("deaths_seen", deaths);
    if deaths > 0 {
        c.distinct(&log);
    }
    d.close();
    let stall = Stall::start();
    let survivors = !eventually(Duration::from_secs(10), || left.iter().all(|id| !running(*id)));
    if survivors {
        let alive: Vec<u32> = left.iter().cloned().filter(|id| running(*id)).collect();
        for id in &alive {
            unsafe { libc::kill(*id as i32, libc::SIGKILL) };
        }
        if stall.worst_ms() < 1000 && res.is_ok() {
            c.violation("proc-survives-server", &format!("{} of {} processes still run 10 s after their server is gone", alive.len(), left.len()), json!({"case": i}));
        }
    }
    c.count("left_to_the_server", left.len() as u64);
    match res {
        Ok(()) => {}
        Err(("", _)) => c.inconclusive("the machine stalled"),
        Err((k, m)) => c.violation(&format!("life-{}", k), &m, json!({"case": i, "last": trace.iter().rev().take(20).collect::<Vec<_>>()})),
    }
}

/// Many processes at once.
fn flock(c: &Ctx, i: u64) {
    let mut r = c.rng("flock", i);
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let n = r.gen_range(60, 160);
    let mut ps: Vec<P16> = vec![];
    let mut killed = 0;
    let res = (|| -> Result<(), (&'static str, String)> {
        let na = |e: String| ("no-answer", e);
        for _ in 0..n {
            let (po, pe) = (r.gen(), r.gen());
            let op = POp::Exec { cmd: exe(), args: child_args(&["wait", "0"]), i: true, o: po, e: pe, dir: None };
            match d.ask(&mut r, &op).map_err(na)? {
                PObs::Started(id) => {
                    if ps.iter().any(|p| p.id == id) {
                        return Err(("same-id", format!("id {} was given to two processes", id)));
                    }
                    ps.push(P16 { id, life: Life::Waiting, gate: None, pipes: (true, po, pe), code: 0 });
                }
                x => return Err(("exec", format!("{:?} as process {} at once gave {:?}", op, ps.len(), x))),
            }
        }
        ps.shuffle(&mut r);
        for k in 0..ps.len() {
            match r.gen_range(0, 3) {
                0 => {
                    let id = ps[k].id;
                    match d.ask(&mut r, &POp::Kill(id)).map_err(na)? {
                        PObs::Killed(x, None) if x == id => {}
                        x => return Err(("kill", format!("kill {} gave {:?}", id, x))),
                    }
                    ps[k].life = Life::Killed;
                    killed += 1;
                    if pid_state(id).is_some() {
                        return Err(("kill", format!("process {} was reported as killed but /proc says {:?}", id, pid_state(id))));
                    }
                }
                1 => {
                    let (id, code) = (ps[k].id, r.gen::<u8>());
                    match d.ask(&mut r, &POp::In(id, vec![code])).map_err(na)? {
                        PObs::Written(x) if x == id => {}
                        x => return Err(("stdin", format!("writing to process {} gave {:?}", id, x))),
                    }
                    ps[k].life = Life::Released(Some(code as i32));
                    if r.gen_bool(0.5) {
                        wait_dead(&mut d, &mut r, &mut ps[k])?;
                    }
                }
                _ => {}
            }
            if k % 16 == 0 {
                if let Some(p) = ps.iter().find(|p| p.life == Life::Waiting && !running(p.id)) {
                    return Err(("died", format!("process {} must be running but /proc says {:?}", p.id, pid_state(p.id))));
                }
            }
        }
        for p in ps.iter_mut() {
            match p.life {
                Life::Released(_) => drop(wait_dead(&mut d, &mut r, p)?),
                _ => {
                    let st = d.ask(&mut r, &POp::Status(p.id)).map_err(na)?;
                    check(p, &st)?;
                }
            }
        }
        Ok(())
    })();
    let left: Vec<u32> = ps.iter().filter(|p| p.life == Life::Waiting).map(|p| p.id).collect();
    c.eval();
    c.max("processes_at_once", ps.len() as u64);
    c.distinct(&("flock", n, killed));
    d.close();
    let stall = Stall::start();
    if !eventually(Duration::from_secs(10), || left.iter().all(|id| !running(*id))) {
        let alive: Vec<u32> = left.iter().cloned().filter(|id| running(*id)).collect();
        for id in &alive {
            unsafe { libc::kill(*id as i32, libc::SIGKILL) };
        }
        if stall.worst_ms() < 1000 && res.is_ok() {
            c.violation("proc-survives-server", &format!("{} of {} processes still run 10 s after their server is gone", alive.len(), left.len()), json!({"flock": i}));
        }
    }
    match res {
        Ok(()) => {}
        Err(("", _)) => c.inconclusive("the machine stalled"),
        Err((k, m)) => c.violation(&format!("life-{}", k), &m, json!({"flock": i})),
    }
}

fn check(p: &mut P16, st: &PObs) -> Result<(), (&'static str, String)> {
    let bad = |m: String| Err(("status", m));
    match (p.life, st) {
        (Life::Waiting, PObs::Status(id, true, None)) if *id == p.id => Ok(()),
        (Life::Released(_), PObs::Status(id, true, None)) if *id == p.id => Ok(()),
        (Life::Released(code), PObs::Status(id, false, x)) if *id == p.id => {
            if *x != code {
                return bad(format!("process {} ended with {:?} but {:?} was reported", p.id, code, x));
            }
            if running(p.id) {
                return bad(format!("process {} was reported dead while /proc says {:?}", p.id, pid_state(p.id)));
            }
            p.life = Life::Dead(code);
            Ok(())
        }
        (Life::Dead(code), PObs::Status(id, false, x)) if *id == p.id && *x == code => Ok(()),
        (Life::Killed, PObs::Io(io::ErrorKind::InvalidInput)) => Ok(()),
        (l, x) => bad(format!("the status of process {} ({:?}) was reported as {:?}", p.id, l, x)),
    }
}
fn wait_dead(d: &mut Desk, r: &mut StdRng, p: &mut P16) -> Result<u64, (&'static str, String)> {
    let stall = Stall::start();
    let t = Instant::now();
    let mut seen_dead = None;
    loop {
        if !running(p.id) && seen_dead.is_none() {
            seen_dead = Some(Instant::now());
        }
        let st = d.ask(r, &POp::Status(p.id)).map_err(|e| ("no-answer", e))?;
        check(p, &st)?;
        if let Life::Dead(_) = p.life {
            return Ok(1);
        }
        if let Some(x) = seen_dead {
            if x.elapsed() > Duration::from_secs(10) && stall.worst_ms() < 1000 {
                return Err(("status", format!("process {} has ended (state {:?}) but is still reported alive after 10 s", p.id, pid_state(p.id))));
            }
        }
        if t.elapsed() > Duration::from_secs(30) {
            return Err(("", String::new()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// `LocalProc` used directly.
fn local(c: &Ctx, i: u64) {
    let mut r = c.rng("local", i);
    let mut rt = runtime(1);
    let mut log = vec![];
    let res: Result<(), String> = rt.block_on(async {
        for _ in 0..8 {
            let (code, how) = (r.gen_range(0, 256), r.gen_range(0, 4));
            let nout = r.gen_range(0, 5000usize);
            let seed = r.gen::<u32>() as u64;
            let args = match how {
                0 => child_args(&["sig", "15"]),
                1 => child_args(&["wait", "0"]),
                _ => child_args(&["emit", &seed.to_string(), &nout.to_string(), "0", &code.to_string(), "0"]),
            };
            let ch = tokio::process::Command::new(exe())
                .args(&args)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .kill_on_drop(true)
                .spawn()
                .map_err(|e| format!("spawn {:?}", e))?;
            let pid = ch.id();
            let mut p = LocalProc::new(ch).spawn();
            if p.id() != pid {
                return Err(format!("LocalProc::id is {} instead of {}", p.id(), pid));
            }
            if how == 1 {
                if let Some(x) = p.exit_status().await {
                    return Err(format!("a running process has exit status {:?}", x));
                }
                if r.gen() {
                    let o = p.kill_and_wait().await.map_err(|e| format!("kill_and_wait {:?}", e))?;
                    if o.status.success() || o.status.code().is_some() || running(pid) {
                        return Err(format!("killing gave {:?}", o.status));
                    }
                    log.push((how, 1));
                    continue;
                }
                p.write_stdin(&[code as u8]).await.map_err(|e| format!("write_stdin {:?}", e))?;
            }
            let mut got = vec![];
            let t = Instant::now();
            let st = loop {
                got.extend(p.read_stdout().await.map_err(|e| format!("read_stdout {:?}", e))?);
                if let Some(s) = p.exit_status().await {
                    break s;
                }
                if t.elapsed() > Duration::from_secs(30) {
                    return Ok(());
                }
                tokio::time::delay_for(Duration::from_millis(1)).await;
            };
            let want = if how == 0 { None } else { Some(code) };
            if st.id != pid || st.exit_code != want || st.is_success != (want == Some(0)) {
                return Err(format!("a process that ended with {:?} has exit status {:?}", want, st));
            }
            if how >= 2 {
                let t = Instant::now();
                while got.len() < nout && t.elapsed() < Duration::from_secs(15) {
                    got.extend(p.read_stdout().await.map_err(|e| format!("read_stdout {:?}", e))?);
                    tokio::time::delay_for(Duration::from_millis(1)).await;
                }
                if got != stream(seed, nout) {
                    return Err(format!("read {} bytes instead of the {} the process wrote", got.len(), nout));
                }
            }
            if p.read_stderr().await.is_ok() {
                return Err("reading stderr that is not piped succeeded".into());
            }
            log.push((how, code));
        }
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(50));
    c.eval();
    c.count("local_processes", log.len() as u64);
    c.distinct(&log);
    if let Err(e) = res {
        c.violation("local-proc", &e, json!({"case": i}));
    }
}

// ------------------------------------------------------------------ C10: stdin
/// A process that does not read its stdin must not keep the server from
/// answering others, nor from recovering once the process is gone.
pub fn stubborn(c: &Ctx) {
    let mut r = c.rng("stubborn", 0);
    let mut d = match Desk::open_n(&mut r, 2, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let tmp = tempfile::tempdir().expect("tempdir");
    let gate = tmp.path().join("gate");
    let op = POp::Exec { cmd: exe(), args: child_args(&["until", &gate.display().to_string(), "0"]), i: true, o: true, e: true, dir: None };
    let id = match d.ask(&mut r, &op) {
        Ok(PObs::Started(id)) => id,
        x => return c.violation("stdin-exec", &format!("{:?}", x), json!({})),
    };
    let n = d.cls.len();
    let stall = Stall::start();
    let mut first = d.cls.remove(0);
    first.timeout = Duration::from_secs(40);
    let w = d.rt.spawn(async move { first.ask(to_request(&POp::In(id, vec![7; 200_000]))).await.map(from_reply) });
    std::thread::sleep(Duration::from_millis(1500));
    if n > 1 {
        d.cls[0].timeout = Duration::from_secs(5);
        let x = d.rt.block_on(d.cls[0].ask(to_request(&POp::Status(id)))).map(from_reply);
        match x {
            Ok(PObs::Status(..)) => c.count("answered_while_stdin_full", 1),
            x if stall.worst_ms() < 1000 => c.violation(
                "stdin-full-pipe-wedges-server",
                &format!("while 200 KB are written to a process that does not read its stdin, another client's request gave {:?}", x),
                json!({}),
            ),
            _ => c.inconclusive("the machine stalled"),
        }
    }
    // the process goes away
    std::fs::write(&gate, b"").unwrap();
    let t = Instant::now();
    let res = d.rt.block_on(w).unwrap_or(Ok(PObs::Other("panic".into())));
    c.eval();
    if n > 1 && t.elapsed() < Duration::from_secs(30) {
        d.cls[0].timeout = Duration::from_secs(20);
        let x = d.rt.block_on(d.cls[0].ask(to_request(&POp::Status(id)))).map(from_reply);
        match x {
            Ok(PObs::Status(..)) => c.count("recovered_from_full_stdin", 1),
            x if stall.worst_ms() < 1000 => c.violation("stdin-no-recovery", &format!("after the process with the full stdin ended ({:?}) a request gave {:?}", res, x), json!({})),
            _ => c.inconclusive("the machine stalled"),
        }
    }
    d.close();
}

// ------------------------------------------------------------------ C10: fifo
/// Opening a FIFO that nobody has at its other end must not keep the server
/// from answering others, nor from recovering once somebody has.
pub fn fifo(c: &Ctx) {
    let mut r = c.rng("fifo", 0);
    let mut d = match Desk::open_n(&mut r, 2, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    if d.cls.len() < 2 {
        return c.inconclusive("no second client");
    }
    let tmp = tempfile::tempdir().expect("tempdir");
    let path = tmp.path().join("fifo");
    let name = std::ffi::CString::new(path.display().to_string()).unwrap();
    if unsafe { libc::mkfifo(name.as_ptr(), 0o600) } != 0 {
        return c.inconclusive("no fifo");
    }
    let stall = Stall::start();
    let mut first = d.cls.remove(0);
    first.timeout = Duration::from_secs(40);
    let q = Request::OpenFile(over_there::core::request::OpenFileArgs { path: path.display().to_string(), create_if_missing: false, write_access: false, read_access: true });
    let w = d.rt.spawn(async move { first.ask(q).await });
    std::thread::sleep(Duration::from_millis(700));
    d.cls[0].timeout = Duration::from_secs(5);
    match d.rt.block_on(d.cls[0].ask(Request::Heartbeat)) {
        Ok(_) => c.count("answered_while_opening_fifo", 1),
        x if stall.worst_ms() < 1000 => c.violation("fifo-open-wedges-server", &format!("while a FIFO is being opened for a client, another client's request gave {:?}", x), json!({})),
        _ => c.inconclusive("the machine stalled"),
    }
    // somebody opens the other end
    let other = std::fs::OpenOptions::new().read(true).write(true).open(&path);
    let res = d.rt.block_on(w);
    stall.reset();
    d.cls[0].timeout = Duration::from_secs(20);
    match d.rt.block_on(d.cls[0].ask(Request::Heartbeat)) {
        Ok(_) => c.count("recovered_from_fifo", 1),
        x if stall.worst_ms() < 1000 => c.violation("fifo-no-recovery", &format!("after the other end of the FIFO was opened ({:?}) a request gave {:?}", res.map(|x| x.is_ok()), x), json!({})),
        _ => c.inconclusive("the machine stalled"),
    }
    c.eval();
    drop(other);
    d.close();
}
