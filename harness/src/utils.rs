//! C25: delimited messages survive any chunking. C26: the one-shot helpers
//! (delays, lifetimes, callbacks, captures, retry loops) keep their promises.
use crate::common::*;
use over_there::utils::{exec, Capture, CallbackManager, Delay, DelimiterReader, DelimiterWriter, TtlValue};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::collections::{BTreeSet, HashMap};
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ delimiters
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

struct Framing {
    delimiter: Vec<u8>,
    max: usize,
    msgs: Vec<Vec<u8>>,
}

fn framing(r: &mut StdRng) -> Framing {
    let delimiter: Vec<u8> = match r.gen_range(0, 8) {
        0 => b"\n".to_vec(),
        1 => b"</test>".to_vec(),
        2 => b"aa".to_vec(),
        3 => b"abab".to_vec(),
        4 => vec![0, 0, 1],
        5 => { let n = r.gen_range(1, 20); rand_bytes(r, n) }
        _ => over_there::utils::DEFAULT_DELIMITER.to_vec(),
    };
    let max = match r.gen_range(0, 4) {
        0 => r.gen_range(1, 8),
        1 => r.gen_range(8, 64),
        2 => delimiter.len(),
        _ => r.gen_range(64, 2000),
    };
    let alphabet: Vec<u8> = delimiter.iter().cloned().chain(b"x\0\xff".iter().cloned()).collect();
    let mut msgs = vec![];
    while msgs.len() < r.gen_range(1, 25) {
        let n = match r.gen_range(0, 8) {
            0 => 1,
            1 | 2 => max,
            // longer than what the reader keeps
            3 if r.gen_bool(0.4) => max + r.gen_range(1, 3 * max + 2 * delimiter.len() + 2),
            _ => r.gen_range(1, max + 1),
        };
        let m: Vec<u8> = if r.gen_bool(0.6) {
            // nearly delimiters
            (0..n).map(|_| *alphabet.choose(r).unwrap()).collect()
        } else {
            rand_bytes(r, n)
        };
        let mut w = m.clone();
        w.extend(&delimiter);
        if find(&w, &delimiter) == Some(m.len()) {
            msgs.push(m);
        } else if delimiter.len() == 1 || r.gen_bool(0.2) {
            msgs.push(b"~".to_vec());
            if delimiter.contains(&b'~') {
                msgs.pop();
            }
        }
    }
    Framing { delimiter, max, msgs }
}

fn delimited(c: &Ctx, i: u64, r: &mut StdRng) -> Result<(), String> {
    let f = framing(r);
    // written through a sink that takes as much as it likes
    let mut wire: Vec<u8> = vec![];
    let mut writer = if f.delimiter == over_there::utils::DEFAULT_DELIMITER { DelimiterWriter::new() } else { DelimiterWriter::new_with_delimiter(&f.delimiter) };
    let shorts = r.gen_bool(0.6);
    for m in &f.msgs {
        let said = {
            let (wire, r) = (&mut wire, &mut *r);
            writer.write(m, |b: &[u8]| {
                let n = if shorts && b.len() > 1 { r.gen_range(1, b.len() + 1) } else { b.len() };
                wire.extend(&b[..n]);
                Ok(n)
            })
        };
        match said {
            Ok(n) if n == m.len() => {}
            x => return Err(format!("writing {} bytes gave {:?}", m.len(), x)),
        }
    }
    let want: Vec<u8> = f.msgs.iter().flat_map(|m| m.iter().chain(f.delimiter.iter()).cloned()).collect();
    if wire != want {
        return Err(format!("the writer sent {} for messages {:?}", hex(&wire), f.msgs));
    }
    // a sink that fails is reported, and one that takes nothing does not hang
    let mut w2 = DelimiterWriter::new_with_delimiter(&f.delimiter);
    let fail_at = r.gen_range(0, 3);
    let mut calls = 0;
    let said = w2.write(&f.msgs[0], |b: &[u8]| {
        calls += 1;
        if calls > fail_at {
            Err(io::ErrorKind::BrokenPipe.into())
        } else {
            Ok(b.len())
        }
    });
    match (calls > fail_at, said) {
        (true, Err(ref e)) if e.kind() == io::ErrorKind::BrokenPipe => {}
        (false, Ok(_)) => {}
        (_, x) => return Err(format!("a failing sink (at call {}) made write say {:?}", fail_at, x)),
    }
    // read back in pieces
    let mut reader = if f.delimiter == over_there::utils::DEFAULT_DELIMITER { DelimiterReader::new(f.max) } else { DelimiterReader::new_with_delimiter(f.max, &f.delimiter) };
    let style = r.gen_range(0, 4);
    let mut at = 0;
    let mut got: Vec<Vec<u8>> = vec![];
    let mut data = vec![0xAAu8; f.max + r.gen_range(0, 5)];
    let mut idle = 0;
    let mut reads = 0u64;
    
    while idle < f.msgs.len() + 4 {
        reads += 1;
        let fail = r.gen_bool(0.15);
        let piece = match style {
            0 => 1,
            1 => r.gen_range(1, 5),
            2 => usize::max_value(),
            _ => r.gen_range(1, f.max + f.delimiter.len() + 2),
        };
        for b in data.iter_mut() {
            *b = 0xAA;
        }
        let mut gave = 0;
        let mut asked = 0;
        let res = {
            let (at, wire, gave, asked) = (&mut at, &wire, &mut gave, &mut asked);
            let mut source = move |b: &mut [u8]| -> io::Result<usize> {
                *asked += 1;
                if fail {
                    return Err(io::ErrorKind::WouldBlock.into());
                }
                let n = piece.min(b.len()).min(wire.len() - *at);
                b[..n].copy_from_slice(&wire[*at..*at + n]);
                *at += n;
                *gave += n;
                Ok(n)
            };
            if i % 2 == 0 {
                reader.read(&mut data, source)
            } else {
                now_or_never(reader.async_read(&mut data, |b| futures::future::ready(source(b)))).expect("ready")
            }
        };
        if asked == 0 {
            return Err("the source was not read".into());
        }
        match res {
            Ok(0) if fail => return Err("a failed read with nothing to give was not reported".into()),
            Ok(0) => {
                if gave == 0 {
                    idle += 1;
                } else {
                    idle = 0;
                }
            }
            Ok(n) if n > f.max => return Err(format!("{} bytes given with a maximum of {}", n, f.max)),
            Ok(n) => {
                got.push(data[..n].to_vec());
                if data[n..].iter().any(|b| *b != 0xAA) {
                    return Err("more than the message was written to the buffer".into());
                }
                idle = 0;
            }
            Err(ref e) if fail && e.kind() == io::ErrorKind::WouldBlock => {}
            Err(e) => return Err(format!("reading failed with {:?}", e)),
        }
    }
    c.count("framed_messages", f.msgs.len() as u64);
    c.count("reads", reads);
    // what is longer than the maximum keeps its end, everything else is whole
    let mut g = got.iter();
    for (k, m) in f.msgs.iter().enumerate() {
        if m.len() <= f.max {
            match g.next() {
                Some(x) if x == m => {}
                x => return Err(format!("message {} of {} ({}, max {}) was read as {:?}", k, f.msgs.len(), hex(m), f.max, x.map(|x| hex(x)))),
            }
        } else {
            c.count("overlong_messages", 1);
            match g.next() {
                Some(x) if m.ends_with(x) => {}
                x => return Err(format!("of the overlong message {} ({} bytes, max {}) came {:?}", k, m.len(), f.max, x.map(|x| hex(x)))),
            }
        }
    }
    if let Some(x) = g.next() {
        return Err(format!("an additional message {} was read", hex(x)));
    }
    c.distinct(&(f.delimiter, f.max, f.msgs, style, at));
    Ok(())
}

pub fn c25(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(60_000, 2_000_000), Duration::from_secs(ctx.pick(40, 900)), move |i| {
        c.eval();
        let c2 = c.clone();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let mut r = c2.rng("delimiter", i);
            delimited(&c2, i, &mut r)
        }));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.violation("framing", &e, json!({ "case": i })),
            Err(_) => c.report_panics("reading or writing delimited data"),
        }
    });
    ctx.report_panics("reading or writing delimited data");
    ctx.finish(
        "lists of messages full of almost-delimiters written through sinks that take any amount and read back (blocking and async) from sources that give any amount or fail; distinct by delimiter, maximum, messages and reading style",
        1000,
        &["messages are not empty (the reader cannot tell an empty one from none)", "no delimiter occurs before the end of message and delimiter together", "of a message longer than the reader's maximum only its end is required"],
    )
}

// ------------------------------------------------------------ one-shot helpers
struct Fired {
    at: Mutex<Vec<Instant>>,
}

fn delays(c: &Ctx, r: &mut StdRng, stall: &Stall) -> Result<(), String> {
    stall.reset();
    let mut v = vec![];
    for _ in 0..r.gen_range(20, 80) {
        let timeout = Duration::from_micros(match r.gen_range(0, 5) {
            0 => 0,
            1 => r.gen_range(0, 3000),
            _ => r.gen_range(1000, 120_000),
        });
        let f = Arc::new(Fired { at: Mutex::new(vec![]) });
        let f2 = f.clone();
        let before = Instant::now();
        let d = Delay::spawn(timeout, move || f2.at.lock().unwrap().push(Instant::now()));
        // cancelled never, at once, shortly before the end, or afterwards
        let cancel = match r.gen_range(0, 5) {
            0 => Some(Duration::from_millis(0)),
            1 => Some(timeout.checked_sub(Duration::from_micros(r.gen_range(0, 1500))).unwrap_or_default()),
            2 => Some(timeout + Duration::from_millis(r.gen_range(0, 30))),
            _ => None,
        };
        v.push((before, timeout, cancel, d, f, None::<(Instant, Instant, usize)>));
    }
    let mut end = Instant::now() + Duration::from_millis(250);
    while Instant::now() < end {
        let now = Instant::now();
        for (before, _, cancel, d, f, done) in v.iter_mut() {
            if let Some(x) = *cancel {
                if done.is_none() && now >= *before + x {
                    let a = Instant::now();
                    d.cancel();
                    *done = Some((a, Instant::now(), f.at.lock().unwrap().len()));
                    end = end.max(Instant::now() + Duration::from_millis(30));
                }
            }
        }
        // wakes the sleepers for no reason, as the platform may
        std::thread::sleep(Duration::from_micros(200));
    }
    for (before, timeout, cancel, _, f, done) in v {
        let at = f.at.lock().unwrap().clone();
        c.count("delays", 1);
        if at.len() > 1 {
            return Err(format!("a delay of {:?} ran {} times", timeout, at.len()));
        }
        if let Some(t) = at.get(0) {
            if *t < before + timeout {
                return Err(format!("a delay of {:?} ran after {:?}", timeout, *t - before));
            }
        }
        match done {
            None => {
                if at.is_empty() && stall.worst_ms() < 50 {
                    return Err(format!("late: a delay of {:?} had not run after {:?}", timeout, before.elapsed()));
                }
                if let Some(t) = at.get(0) {
                    if *t > before + timeout + Duration::from_millis(150) && stall.worst_ms() < 50 {
                        return Err(format!("late: a delay of {:?} ran only after {:?}", timeout, *t - before));
                    }
                }
            }
            Some((_, returned, _)) if returned < before + timeout => {
                c.count("delays_cancelled_in_time", 1);
                if !at.is_empty() {
                    return Err(format!("a delay of {:?} ran although it was cancelled after {:?}", timeout, returned - before));
                }
            }
            Some(_) => c.count("delays_cancelled_late", 1),
        }
        c.distinct(&(timeout, cancel));
    }
    Ok(())
}

fn lifetimes(c: &Ctx, r: &mut StdRng) -> Result<(), String> {
    let mut v = vec![];
    for _ in 0..30 {
        let ttl = Duration::from_micros(match r.gen_range(0, 4) { 0 => 0, 1 => r.gen_range(0, 500), _ => r.gen_range(0, 20_000) });
        let a = Instant::now();
        let t = TtlValue::new(r.gen::<u32>(), ttl);
        v.push((a, Instant::now(), ttl, t));
    }
    let end = Instant::now() + Duration::from_millis(30);
    while Instant::now() < end {
        for (a, b, ttl, t) in v.iter_mut() {
            if r.gen_bool(0.05) {
                *a = Instant::now();
                t.touch();
                *b = Instant::now();
            }
            if r.gen_bool(0.05) {
                let was = *t.last_touched();
                *t = t.clone();
                t.value = r.gen();
                if was != *t.last_touched() {
                    return Err("cloning or changing a value touched it".into());
                }
            }
            if *t.last_touched() < *a || *t.last_touched() > *b || t.ttl() != ttl {
                return Err("the last touch or lifetime is reported wrongly".into());
            }
            let (x, e, y) = (Instant::now(), t.has_expired(), Instant::now());
            // the touch was between a and b, the question asked between x and y
            c.count("expiries_asked", 1);
            if e && y.duration_since(*a) < *ttl {
                return Err(format!("expired at most {:?} after the touch, with a lifetime of {:?}", y.duration_since(*a), ttl));
            }
            if !e && x.duration_since(*b) >= *ttl {
                return Err(format!("not expired at least {:?} after the touch, with a lifetime of {:?}", x.duration_since(*b), ttl));
            }
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    // compared by value alone
    let (p, q) = (r.gen_range(0u8, 3), r.gen_range(0u8, 3));
    let (a, b) = (TtlValue::new(p, Duration::from_secs(1)), TtlValue::from(q));
    if (a == b) != (p == q) || a.cmp(&b) != p.cmp(&q) || a.partial_cmp(&b) != p.partial_cmp(&q) || (p == q && h64(&a) != h64(&b)) {
        return Err("values with lifetimes are not compared by value".into());
    }
    Ok(())
}

fn callbacks(c: &Ctx, r: &mut StdRng) -> Result<(), String> {
    let log: Arc<Mutex<Vec<(u64, u32)>>> = Default::default();
    let mut m: CallbackManager<u32> = CallbackManager::default();
    let mut model: HashMap<u32, u64> = HashMap::new();
    let mut taken: Vec<(u64, Box<dyn FnOnce(&u32) + Send>)> = vec![];
    let mut want: Vec<(u64, u32)> = vec![];
    let mut steps = vec![];
    for k in 0..r.gen_range(1, 80) {
        let id = if r.gen_bool(0.1) { r.gen() } else { r.gen_range(0, 6) };
        let op = r.gen_range(0, 4);
        steps.push((op, id));
        match op {
            0 | 1 => {
                let l = log.clone();
                m.add_callback(id, move |x| l.lock().unwrap().push((k, *x)));
                model.insert(id, k);
            }
            2 => {
                let x = r.gen();
                m.invoke_callback(id, &x);
                if let Some(k) = model.remove(&id) {
                    want.push((k, x));
                }
            }
            _ => match (m.take_callback(id), model.remove(&id)) {
                (None, None) => {}
                (Some(f), Some(k)) => {
                    if r.gen() {
                        taken.push((k, f));
                    }
                }
                (a, b) => return Err(format!("take_callback({}) gave {} instead of {} after {:?}", id, a.is_some(), b.is_some(), steps)),
            },
        }
        if r.gen_bool(0.1) {
            if let Some((k, f)) = taken.pop() {
                f(&7);
                want.push((k, 7));
            }
        }
        c.count("callback_steps", 1);
        if *log.lock().unwrap() != want {
            return Err(format!("callbacks that ran: {:?}, expected {:?} after {:?}", log.lock().unwrap(), want, steps));
        }
    }
    c.distinct(&steps);
    Ok(())
}

fn captures(c: &Ctx, r: &mut StdRng) -> Result<(), String> {
    let n = r.gen_range(2, 6);
    let cap: Arc<Capture<u64>> = Arc::new(match r.gen_range(0, 3) {
        0 => Capture::default(),
        1 => Capture::from(None),
        _ => Capture::from(u64::max_value()),
    });
    let gate = Arc::new(Barrier::new(n));
    let next = Arc::new(AtomicU64::new(0));
    let per = 300u64;
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (cap, gate, next) = (cap.clone(), gate.clone(), next.clone());
            std::thread::spawn(move || {
                gate.wait();
                let mut got = vec![];
                for j in 0..per {
                    if (j + k as u64) % 3 == 0 {
                        cap.set(next.fetch_add(1, Ordering::SeqCst));
                    } else if let Some(x) = cap.take() {
                        got.push(x);
                    }
                }
                got
            })
        })
        .collect();
    let mut all: Vec<u64> = vec![];
    for h in hs {
        all.extend(h.join().map_err(|_| "a thread using a capture panicked")?);
    }
    let races = all.len();
    all.extend(cap.take());
    if cap.take().is_some() {
        return Err("a captured value was given twice".into());
    }
    let set: BTreeSet<u64> = all.iter().cloned().collect();
    if set.len() != all.len() {
        return Err(format!("of {} captured values taken only {} are distinct", all.len(), set.len()));
    }
    cap.set(5);
    cap.set(6);
    if cap.take() != Some(6) {
        return Err("the value set last is not the one taken".into());
    }
    c.count("captures_taken", races as u64);
    Ok(())
}

fn retries(c: &Ctx, r: &mut StdRng) -> Result<(), String> {
    c.count("retry_loops", 1);
    let at = r.gen_range(1, 200);
    let calls = std::cell::Cell::new(0);
    let ended = AtomicBool::new(false);
    let fail = r.gen_bool(0.3);
    let res = exec::loop_timeout(Duration::from_secs(30), || {
        calls.set(calls.get() + 1);
        if ended.load(Ordering::SeqCst) {
            return Err("called again after its end".into());
        }
        if calls.get() == at {
            ended.store(true, Ordering::SeqCst);
            if fail { Err("the failure".into()) } else { Ok(Some(at)) }
        } else {
            Ok(None)
        }
    });
    let ok = match &res {
        Ok(x) => !fail && *x == at,
        Err(exec::Error::Exec(e)) => fail && e.to_string() == "the failure",
        Err(_) => false,
    };
    if !ok || calls.get() != at {
        return Err(format!("a function ready (failing: {}) at call {} was called {} times, and the loop gave {:?}", fail, at, calls.get(), res));
    }
    let t = Duration::from_micros(r.gen_range(0, 3000));
    let s = Instant::now();
    // the last call is begun in time and takes longer
    let slow = r.gen_bool(0.3);
    let mut called = 0;
    let res = exec::loop_timeout(t, || {
        called += 1;
        if slow {
            std::thread::sleep(t + Duration::from_micros(500));
            return Ok(Some(1u8));
        }
        Ok(None)
    });
    match res {
        // whether the function is called at all with hardly any time is open
        Err(exec::Error::Timeout(x)) if x == t && !(slow && called > 0) => {
            if s.elapsed() + Duration::from_micros(50) < t {
                return Err(format!("a loop with a limit of {:?} ended after {:?}", t, s.elapsed()));
            }
        }
        Ok(1) if slow && called == 1 => {}
        x => return Err(format!("a loop with a limit of {:?} (slow: {}) gave {:?} after {:?}", t, slow, x, s.elapsed())),
    }
    Ok(())
}

pub fn c26(ctx: &Ctx) -> i32 {
    let stall = Arc::new(Stall::start());
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(800, 20_000), Duration::from_secs(ctx.pick(40, 900)), move |i| {
        c.eval();
        let mut r = c.rng("helpers", i);
        // two in each thread are kept apart by their streams
        let res = match i % 5 {
            // lateness must be seen twice
            0 => match delays(&c, &mut r, &stall) {
                Err(e) if e.starts_with("late") => match delays(&c, &mut c.rng("helpers", i), &stall) {
                    Ok(()) => {
                        eprintln!("case {} seen once: {}", i, e);
                        c.inconclusive("late once only");
                        Ok(())
                    }
                    e => e,
                },
                x => x,
            },
            1 => lifetimes(&c, &mut r),
            2 => (0..50).try_for_each(|_| callbacks(&c, &mut r)),
            3 => (0..5).try_for_each(|_| captures(&c, &mut r)),
            _ => (0..20).try_for_each(|_| retries(&c, &mut r)),
        };
        if let Err(e) = res {
            c.violation(["delay", "lifetime", "callback", "capture", "retry"][(i % 5) as usize], &e, json!({ "case": i }));
        }
    });
    ctx.report_panics("using a helper");
    ctx.finish(
        "delays raced with their cancellation, lifetimes asked around their end, histories of callbacks against a map, captures raced by threads, retry loops; distinct by delay and cancellation time or callback history",
        100,
        &["lateness is judged only while the machine did not stall", "the wall clock does not jump during the run (loop_timeout uses it)"],
    )
}
