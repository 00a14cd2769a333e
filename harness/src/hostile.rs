//! C10: what peers do, or stop doing, must not hurt anybody else.
use crate::common::*;
use crate::kinds::*;
use crate::net::*;
use crate::rig::*;
use over_there::core::{
    reply, request, Content, Header, LazilyTransformedRequest, Msg, Reply, ReplyError, Request, TransformRule,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn c10(ctx: &Ctx) -> i32 {
    // gauges first: they need the process for themselves
    gauges(ctx);
    if !ctx.violated() {
        callbacks(ctx);
    }
    let c = ctx.clone();
    let stall = Stall::start();
    par_cases(ctx, ctx.pick(110, 4000), Duration::from_secs(ctx.pick(45, 500)), move |i| hostile_case(&c, i, &stall));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(60, 1500), Duration::from_secs(ctx.pick(25, 200)), move |i| half_closed(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(80, 2000), Duration::from_secs(ctx.pick(25, 200)), move |i| own_garbage(&c, i));
    texts(ctx);
    crate::proc::stubborn(ctx);
    crate::proc::fifo(ctx);
    crate::cli::starved(ctx);
    ctx.report_panics("peers misbehaved");
    ctx.finish(
        "one well-behaved client asks throughout while 1-4 peers (with or without the keys) send random bytes, \
         altered packets, forged packet fields, garbage payloads, CBOR bombs, messages of every hostile shape, \
         incomplete groups, and connect, reset, stall or half-close; afterwards old and new clients must be \
         answered; file descriptors, CPU and heap return to their level once peers are gone; distinct by (transport, \
         security, attack steps)",
        60,
        &["a peer that holds a connection open without reading is not covered: the server processes one message at \
           a time and waits for room in that peer's queue (see DESIGN.md)"],
    )
}

fn wild_string(r: &mut StdRng) -> String {
    match r.gen_range(0, 16) {
        0 => String::new(),
        1 => "\0".into(),
        2 => "a\0b".into(),
        3 => "x".repeat(r.gen_range(1, 9000)),
        4 => "/nonexistent/\u{1F980}/\u{202e}/x".into(),
        5 => "..".into(),
        6 => ".".into(),
        7 => "//".into(),
        8 => "$".into(),
        9 => "/dev/null/x".into(),
        10 => "/".repeat(r.gen_range(1, 300)) + "nope-at-all/y",
        // characters of several bytes at every offset
        11..=13 => "x".repeat(r.gen_range(0, 4)) + &["\u{e9}", "\u{20ac}", "\u{1F980}"].choose(r).unwrap().repeat(r.gen_range(1, 200)),
        _ => (0..r.gen_range(0, 20)).map(|_| *['$', '.', '[', ']', '*', '?', '(', '@', ')', '"', '\'', 'a', '0', ':', ',', '-', '>', '=', '&', '|', ' ', '\u{1F980}'].choose(r).unwrap()).collect(),
    }
}

/// Read-only or failing requests only: a hostile peer may be a privileged one,
/// but nothing here can touch anything.
pub fn hostile_request(r: &mut StdRng, depth: usize) -> Request {
    let id = *[0u32, 1, u32::max_value(), r.gen()].choose(r).unwrap();
    let sig = r.gen();
    // never a path that exists: everything below lies under a missing root
    let path = |r: &mut StdRng| {
        let w = wild_string(r);
        if r.gen_bool(0.3) && (w.is_empty() || w.contains('\0')) { w } else { format!("/nonexistent-{}/{}", r.gen::<u32>(), w.replace("..", "_")) }
    };
    match r.gen_range(0, if depth == 0 { 22 } else { 26 }) {
        0 => Request::Heartbeat,
        1 => Request::Version,
        2 => Request::Capabilities,
        3 => Request::RenameDir(request::RenameDirArgs { from: path(r), to: path(r) }),
        4 => Request::RemoveDir(request::RemoveDirArgs { path: path(r), non_empty: r.gen() }),
        5 => Request::ListDirContents(request::ListDirContentsArgs { path: path(r) }),
        6 => Request::OpenFile(request::OpenFileArgs { path: path(r), create_if_missing: false, write_access: r.gen(), read_access: r.gen() }),
        7 => Request::CloseFile(request::CloseFileArgs { id, sig }),
        8 => Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: path(r), to: path(r) }),
        9 => Request::RenameFile(request::RenameFileArgs { id, sig, to: path(r) }),
        10 => Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: path(r) }),
        11 => Request::RemoveFile(request::RemoveFileArgs { id, sig }),
        12 => Request::ReadFile(request::ReadFileArgs { id, sig }),
        13 => Request::WriteFile(request::WriteFileArgs { id, sig, contents: rand_bytes(r, 60) }),
        14 => Request::ExecProc(request::ExecProcArgs { command: path(r), args: vec![wild_string(r), wild_string(r)], stdin: r.gen(), stdout: r.gen(), stderr: r.gen(), current_dir: if r.gen() { Some(path(r)) } else { None } }),
        15 => Request::WriteProcStdin(request::WriteProcStdinArgs { id, input: rand_bytes(r, 30) }),
        16 => Request::ReadProcStdout(request::ReadProcStdoutArgs { id }),
        17 => Request::ReadProcStderr(request::ReadProcStderrArgs { id }),
        18 => Request::KillProc(request::KillProcArgs { id }),
        19 => Request::ReadProcStatus(request::ReadProcStatusArgs { id }),
        20 => Request::Custom(request::CustomArgs::from(rand_bytes(r, 14))),
        21 => Request::Forward(request::ForwardArgs { address: loopback(1), request: Box::new(Request::Heartbeat) }),
        22 => Request::InternalDebug(request::InternalDebugArgs { input: rand_bytes(r, 10) }),
        23 => Request::Batch(request::BatchArgs { operations: (0..r.gen_range(0, 6)).map(|_| hostile_request(r, depth - 1)).collect() }),
        _ => Request::Sequence(request::SequenceArgs {
            operations: (0..r.gen_range(0, 5))
                .map(|_| {
                    let inner = hostile_request(r, depth - 1);
                    // a transform may only touch requests that stay harmless
                    // whatever it puts in (it may change the kind of request to
                    // the text of an earlier reply, which never names a request)
                    let n = if harmless(&inner) { r.gen_range(0, 3) } else { 0 };
                    let rules = (0..n)
                        .map(|_| TransformRule {
                            path: if r.gen() { "$.payload".to_string() + &wild_string(r) } else { wild_string(r) },
                            value: if r.gen() { "$.payload".to_string() } else { wild_string(r) },
                        })
                        .collect();
                    LazilyTransformedRequest::new(inner, rules)
                })
                .collect(),
        }),
    }
}
fn harmless(q: &Request) -> bool {
    matches!(q, Request::Heartbeat | Request::Version | Request::Capabilities | Request::Custom(_) | Request::InternalDebug(_) | Request::ReadFile(_) | Request::ReadProcStdout(_))
}

pub fn hostile_reply(r: &mut StdRng) -> Reply {
    match r.gen_range(0, 4) {
        0 => Reply::Heartbeat,
        1 => Reply::Custom(reply::CustomArgs::from(rand_bytes(r, 20))),
        2 => Reply::Error(ReplyError::from("hostile")),
        _ => Reply::Sequence(reply::SequenceArgs { results: vec![Reply::Heartbeat; 3] }),
    }
}

fn nested(depth: usize, batch: bool) -> Request {
    let mut q = Request::Heartbeat;
    for _ in 0..depth {
        q = if batch {
            Request::Batch(request::BatchArgs { operations: vec![q] })
        } else {
            Request::Sequence(request::SequenceArgs { operations: vec![LazilyTransformedRequest::new(q, vec![])] })
        };
    }
    q
}

fn cbor_bomb(r: &mut StdRng) -> Vec<u8> {
    let mut v = match r.gen_range(0, 9) {
        0 => vec![0x81; 20_000],                                           // deeply nested arrays
        1 => vec![0x5b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], // byte string of 2^64-1
        2 => vec![0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], // huge array
        3 => vec![0xbb, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], // huge map
        4 => vec![0x9f; 3000],                                             // indefinite arrays in each other
        5 => vec![0xc0; 3000],                                             // tags of tags
        6 => vec![0x5a, 0x7f, 0xff, 0xff, 0xff],                           // a byte string that never ends
        7 => vec![0xff; 10],                                               // breaks
        _ => vec![0xbf, 0x61, 0x68],
    };
    let k = r.gen_range(0, 60);
    v.extend(rand_bytes(r, k));
    v
}

pub fn mutate(r: &mut StdRng, v: &mut Vec<u8>) {
    for _ in 0..r.gen_range(1, 5) {
        if v.is_empty() {
            return;
        }
        let p = r.gen_range(0, v.len());
        match r.gen_range(0, 6) {
            0 => v[p] ^= 1 << r.gen_range(0, 8),
            1 => v[p] = r.gen(),
            2 => v.truncate(p),
            3 => {
                v.remove(p);
            }
            4 => v.insert(p, r.gen()),
            _ => {
                let q = r.gen_range(p, v.len().min(p + 20)).max(p);
                let s = v[p..q].to_vec();
                for (k, x) in s.into_iter().enumerate() {
                    v.insert(p + k, x);
                }
            }
        }
    }
}

/// One step of an attack; false once the connection is unusable.
fn step(r: &mut StdRng, p: &mut RawPeer, k: u8) -> bool {
    let udp = matches!(p.sock, RawSock::Udp(..));
    let ok = match k {
        0 => {
            let n = r.gen_range(1, 1400);
            let b = rand_bytes(r, n);
            p.bytes(&b)
        }
        1 => {
            // genuine packets, altered
            let n = r.gen_range(1, 1500);
            let body = payload(r, n);
            let v = (p.out)(&body).unwrap_or_default();
            let mut res = Ok(());
            for mut x in v {
                if r.gen_bool(0.7) {
                    mutate(r, &mut x);
                }
                res = p.bytes(&x);
            }
            res
        }
        2 => {
            let n = r.gen_range(1, 900);
            let b = payload(r, n);
            p.payload(&b)
        }
        3 => {
            let b = cbor_bomb(r);
            if b.len() > 1200 && udp { p.payload(&b[..1200]) } else { p.payload(&b) }
        }
        4 => {
            let b = cbor_bomb(r);
            if b.len() > 1200 && udp { p.bytes(&b[..1200]) } else { p.bytes(&b) }
        }
        5 => {
            // a genuine message, altered before it is packed
            let m = Msg::from(match r.gen_range(0, 4) {
                0 => Request::Heartbeat,
                1 => Request::Version,
                2 => nested(3, true),
                _ => nested(2, false),
            });
            let mut v = m.to_vec().unwrap_or_default();
            mutate(r, &mut v);
            if v.is_empty() { Ok(()) } else { p.payload(&v) }
        }
        6 => p.msg(&Msg::from(hostile_reply(r))),
        7 => {
            let d = *[4usize, 5, 6, 20, 60].choose(r).unwrap();
            p.msg(&Msg::from(nested(d, r.gen())))
        }
        8 => {
            let n = if udp { r.gen_range(0, 30) } else { r.gen_range(0, 400) };
            p.msg(&Msg::from(Request::Batch(request::BatchArgs { operations: vec![Request::Heartbeat; n] })))
        }
        9..=12 => {
            let m = Msg::from(hostile_request(r, 2));
            let m = if r.gen_bool(0.2) { Msg::new(m.content, Some(Header::with_id(r.gen()))) } else { m };
            match m.to_vec() {
                Ok(v) if v.len() < 8000 || !udp => p.payload(&v),
                _ => Ok(()),
            }
        }
        13 => {
            // groups that never complete
            let mut res = Ok(());
            for _ in 0..r.gen_range(1, 20) {
                let body = rand_bytes(r, 1200);
                let v = (p.out)(&body).unwrap_or_default();
                let skip = r.gen_range(0, v.len().max(1));
                for (k, x) in v.iter().enumerate() {
                    if k != skip {
                        res = p.bytes(x);
                    }
                }
            }
            res
        }
        14 => {
            if udp {
                // empty and very large datagrams
                let _ = p.bytes(&[]);
                let n = *[1usize, 508, 1500, 9000, 60_000].choose(r).unwrap();
                let b = rand_bytes(r, n);
                p.bytes(&b)
            } else {
                // a packet that breaks off
                let v = (p.out)(&[7; 300]).unwrap_or_default();
                match v.get(0) {
                    Some(x) => p.bytes(&x[..x.len() / 2]),
                    None => Ok(()),
                }
            }
        }
        15 => {
            // fields forged where the peer can (no authentication, or it has the key)
            let v = (p.out)(&[9; 900]).unwrap_or_default();
            let mut res = Ok(());
            for x in v {
                if let Some(mut k) = crate::mirror::Pkt::parse(&x) {
                    match r.gen_range(0, 3) {
                        0 => k.metadata.index = *[u32::max_value(), u32::max_value() - 1, 1 << 31, 0].choose(r).unwrap(),
                        1 => k.metadata.id = r.gen(),
                        _ => k.data = rand_bytes(r, 10),
                    }
                    res = p.bytes(&k.sign(&p.auth).bytes());
                }
            }
            res
        }
        _ => {
            if let RawSock::Tcp(s) = &p.sock {
                let _ = s.shutdown(if r.gen() { std::net::Shutdown::Write } else { std::net::Shutdown::Both });
            }
            return false;
        }
    };
    ok.is_ok()
}

fn reset_on_close(s: &std::net::TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn attacker(proto: Proto, addr: std::net::SocketAddr, auth: DynAuth, crypt: DynCrypt, seed: u64, until: Arc<AtomicBool>, log: Arc<std::sync::Mutex<Vec<u8>>>) {
    let mut r = StdRng::seed_from_u64(seed);
    for _ in 0..r.gen_range(1, 12) {
        if until.load(Ordering::Relaxed) {
            break;
        }
        let mut p = match RawPeer::connect(proto, addr, &auth, &crypt) {
            Ok(p) => p,
            Err(_) => break,
        };
        for _ in 0..r.gen_range(0, 8) {
            let k = r.gen_range(0, 18u8);
            log.lock().unwrap().push(k);
            if !step(&mut r, &mut p, k) {
                break;
            }
            // read what comes back, as a peer does that is not stuck
            if r.gen_bool(0.6) {
                p.recv(1, Duration::from_millis(r.gen_range(1, 12)));
            }
            if proto == Proto::Udp {
                std::thread::sleep(Duration::from_millis(r.gen_range(0, 5)));
            }
        }
        p.recv(1000, Duration::from_millis(r.gen_range(1, 15)));
        if let RawSock::Tcp(s) = &p.sock {
            if r.gen_bool(0.4) {
                reset_on_close(s);
            }
        }
    }
}

fn hostile_case(c: &Ctx, i: u64, stall: &Stall) {
    let mut r = c.rng("hostile", i);
    let proto = if r.gen_bool(0.5) { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let mut cfg = SrvCfg::new(proto, auth.clone(), crypt.clone());
    cfg.cloneable = r.gen();
    cfg.buffer = *[1usize, 3, 1000].choose(&mut r).unwrap();
    cfg.packet_ttl = *[Duration::from_millis(20), Duration::from_secs(300)].choose(&mut r).unwrap();
    let short = cfg.packet_ttl < Duration::from_secs(1);
    let log = cfg.log.clone();
    let srv = match cfg.start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    stall.reset();
    let drops0 = udp_kernel_drops();
    let desc = format!("{:?} {:?}/{:?}", proto, sec.ak, sec.ck);
    let until = Arc::new(AtomicBool::new(false));
    let steps: Arc<std::sync::Mutex<Vec<u8>>> = Default::default();
    let n = r.gen_range(1, 5);
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let insider = r.gen_bool(0.7);
            let other = Sec::random(&mut r);
            let (a, b) = if insider { (auth.clone(), crypt.clone()) } else { (other.auth(), other.crypt()) };
            let (seed, u, l, addr) = (r.gen(), until.clone(), steps.clone(), srv.addr);
            std::thread::spawn(move || attacker(proto, addr, a, b, seed, u, l))
        })
        .collect();
    let mut rt = runtime(2);
    let mut k = 0u64;
    let mut asked: Vec<u64> = vec![];
    let mut bad: Option<(String, String, bool)> = None;
    let (a2, b2) = (auth.clone(), crypt.clone());
    let addr = srv.addr;
    let mut client = match rt.block_on(connect(proto, addr, &a2, &b2)) {
        Ok(x) => x,
        Err(_) => {
            until.store(true, Ordering::Relaxed);
            return c.inconclusive("client did not connect");
        }
    };
    let mut ask = |rt: &mut tokio::runtime::Runtime, cl: &mut over_there::core::ConnectedClient, r: &mut StdRng, tries: u32| -> Option<(String, String, bool)> {
        k += 1;
        // a group must not outlive the packet ttl while it is being received
        let big = if short { 200 } else { 2000 };
        let mut last = None;
        for t in 0..tries {
            let j = Job { id: (i << 24) | (k << 8) | t as u64, delay_ms: 0, reply_len: r.gen_range(0, big), fail: r.gen_bool(0.1), pad: r.gen_range(0, if short { 60 } else { 1200 }) };
            cl.timeout = Duration::from_secs(8);
            asked.push(j.id);
            let res = rt.block_on(cl.ask(custom(&j)));
            last = judge(&Op::Ask(j), &res).map(|e| {
                let timeout = e.contains("Timeout");
                (if timeout { "good-client-unanswered".to_string() } else { "good-client-misled".to_string() }, e, timeout)
            });
            match &last {
                None => return None,
                Some(x) if !x.2 => return last,
                _ => {}
            }
        }
        last
    };
    let mut during = 0;
    while hs.iter().any(|h| !h.is_finished()) && during < 400 && bad.is_none() {
        bad = ask(&mut rt, &mut client, &mut r, 3);
        during += 1;
    }
    until.store(true, Ordering::Relaxed);
    for h in hs {
        let _ = h.join();
    }
    // datagrams may be lost while peers flood the server: that excuses what
    // went unanswered until now, but not what follows
    let disturbed = stall.worst_ms() > 1500 || (proto == Proto::Udp && udp_kernel_drops() != drops0);
    let mut excused = false;
    if disturbed && bad.as_ref().map(|b| b.2).unwrap_or(false) {
        excused = true;
        bad = None;
    }
    if proto == Proto::Udp && bad.is_none() && udp_unread(addr, stall) {
        bad = Some(("server-stopped-reading".into(), "with the attack over, datagrams stay unread in the server's socket".into(), false));
    }
    stall.reset();
    if bad.is_none() {
        bad = ask(&mut rt, &mut client, &mut r, 3).map(|x| (format!("{}-after", x.0), x.1, x.2));
    }
    if bad.is_none() {
        match rt.block_on(connect(proto, addr, &a2, &b2)) {
            Ok(mut fresh) => bad = ask(&mut rt, &mut fresh, &mut r, 3).map(|x| (format!("{}-fresh", x.0), x.1, x.2)),
            Err(e) => bad = Some(("fresh-client-refused".into(), format!("{}", e), true)),
        }
    }
    rt.shutdown_timeout(Duration::from_millis(100));
    let ran = log.snapshot();
    srv.stop();
    for id in &ran {
        if asked.iter().filter(|x| *x == id).count() == 0 {
            bad = Some(("ran-unasked".into(), format!("a request {:x} was executed that nobody sent", id), false));
        }
        if ran.iter().filter(|x| *x == id).count() > 1 {
            bad = Some(("ran-twice".into(), format!("request {:x} was executed twice", id), false));
        }
    }
    let st = steps.lock().unwrap().clone();
    c.eval();
    c.count("attack_steps", st.len() as u64);
    c.count("asks_during_attack", during as u64);
    c.distinct(&(desc.clone(), &st));
    c.sample(json!({"case": i, "config": desc, "attackers": n, "steps": st.len(), "asks_during": during}));
    if let Some((sig, msg, deadline)) = bad {
        if deadline && stall.worst_ms() > 1500 {
            return c.inconclusive("a deadline passed while the machine stalled");
        }
        let mut kinds = st.clone();
        kinds.sort();
        kinds.dedup();
        excused = false;
        c.violation(&sig, &format!("{}: {} (attack steps {:?})", desc, msg, kinds), json!({"case": i, "steps": st}));
    }
    if excused {
        c.inconclusive("a deadline passed while the machine stalled or dropped datagrams");
    }
}

/// A peer with the keys sends something that is no message, and goes on: the
/// same connection, and everybody else, is still served.
fn own_garbage(c: &Ctx, i: u64) {
    let mut r = c.rng("own garbage", i);
    let proto = if r.gen() { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let srv = match SrvCfg::new(proto, auth.clone(), crypt.clone()).start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let (mut p, mut q) = match (RawPeer::connect(proto, srv.addr, &auth, &crypt), RawPeer::connect(proto, srv.addr, &auth, &crypt)) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return c.inconclusive("raw peer"),
    };
    let mut plan = vec![];
    for k in 0..r.gen_range(1, 8u64) {
        let kind = r.gen_range(0, 6u8);
        plan.push(kind);
        let _ = match kind {
            0 => { let n = r.gen_range(1, 900); let b = rand_bytes(&mut r, n); p.payload(&b) }
            1 => { let mut v = Msg::from(Request::Version).to_vec().unwrap_or_default(); mutate(&mut r, &mut v); if v.is_empty() { v.push(0) } p.payload(&v) }
            2 => { let v = Msg::from(Request::Version).to_vec().unwrap_or_default(); p.payload(&v[..r.gen_range(1, v.len())]) }
            3 => { let b = cbor_bomb(&mut r); p.payload(&b[..b.len().min(1200)]) }
            // a packet altered where its framing stays intact
            4 => {
                let v = (p.out)(&[5; 100]).unwrap_or_default();
                match v.get(0).and_then(|x| crate::mirror::Pkt::parse(x)) {
                    Some(mut x) => { let n = x.data.len(); x.data[n / 2] ^= 4; p.bytes(&x.bytes()) }
                    None => Ok(()),
                }
            }
            _ => p.msg(&Msg::from(hostile_reply(&mut r))),
        };
        if !r.gen_bool(0.6) {
            continue;
        }
        for (who, x) in vec![("the same peer", &mut p), ("another peer", &mut q)] {
            let j = Job { id: (i << 8) | k, delay_ms: 0, reply_len: 300, fail: false, pad: 20 };
            let mut ok = false;
            for _ in 0..2 {
                if x.msg(&Msg::from(custom(&j))).is_err() {
                    break;
                }
                let t = Instant::now();
                // an altered message may have been a request that is answered
                while !ok && t.elapsed() < Duration::from_secs(12) {
                    match x.recv(1, Duration::from_secs(12)).pop() {
                        Some(m) => ok = matches!(&m.content, Content::Reply(Reply::Custom(a)) if a.data == j.reply()),
                        None => break,
                    }
                }
                if ok {
                    break;
                }
            }
            if !ok {
                c.violation("unserved-after-garbage", &format!("{:?} {:?}/{:?}: {} is not answered after something undecodable arrived (kinds {:?})", proto, sec.ak, sec.ck, who, plan), json!({"case": i, "plan": plan}));
                return;
            }
        }
    }
    c.eval();
    c.count("undecodable_messages", plan.len() as u64);
    c.distinct(&("own garbage", proto, sec.ak, sec.ck, plan));
}

/// Every text of every request, in texts of every alignment: each is answered.
/// All of them fail, or name nothing that exists.
fn texts(c: &Ctx) {
    let mut r = c.rng("texts", 0);
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let srv = match SrvCfg::new(Proto::Tcp, auth.clone(), crypt.clone()).start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let mut p = match RawPeer::connect(Proto::Tcp, srv.addr, &auth, &crypt) {
        Ok(p) => p,
        Err(_) => return c.inconclusive("raw peer"),
    };
    let mut all: Vec<String> = ["", "\0", "\n", "%s%n", "a\0b", "$", "$.", "$[", "\u{1F980}"].iter().map(|x| x.to_string()).collect();
    for k in 0..4 {
        for w in &["\u{e9}", "\u{20ac}", "\u{1F980}", "e\u{301}"] {
            for n in &[40, 110, 3000] {
                all.push("x".repeat(k) + &w.repeat(*n));
            }
        }
    }
    let seq = |rule: TransformRule| {
        Request::Sequence(request::SequenceArgs {
            operations: vec![LazilyTransformedRequest::new(Request::Heartbeat, vec![]), LazilyTransformedRequest::new(Request::Version, vec![rule])],
        })
    };
    let none = "/nonexistent-\u{e9}/".to_string();
    for (i, t) in all.iter().enumerate() {
        let under = |t: &String| none.clone() + t;
        let exec = |command: &String, args: Vec<String>, current_dir: Option<String>| {
            Request::ExecProc(request::ExecProcArgs { command: command.clone(), args, stdin: false, stdout: true, stderr: true, current_dir })
        };
        let reqs = vec![
            Request::CreateDir(request::CreateDirArgs { path: under(t), include_components: false }),
            Request::RenameDir(request::RenameDirArgs { from: under(t), to: under(t) }),
            Request::RenameDir(request::RenameDirArgs { from: none.clone(), to: under(t) }),
            Request::RemoveDir(request::RemoveDirArgs { path: under(t), non_empty: i % 2 == 0 }),
            Request::ListDirContents(request::ListDirContentsArgs { path: t.clone() }),
            Request::OpenFile(request::OpenFileArgs { path: t.clone(), create_if_missing: false, write_access: false, read_access: true }),
            Request::OpenFile(request::OpenFileArgs { path: under(t), create_if_missing: true, write_access: true, read_access: true }),
            Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: under(t), to: under(t) }),
            Request::RenameFile(request::RenameFileArgs { id: 7, sig: 7, to: under(t) }),
            Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: under(t) }),
            exec(t, vec![], None),
            exec(&under(t), vec![t.clone()], None),
            exec(&none, vec![t.clone(); 3], Some(t.clone())),
            exec(&"true".to_string(), vec![], Some(under(t))),
            seq(TransformRule { path: t.clone(), value: "$.type".into() }),
            seq(TransformRule { path: "$.payload".into(), value: t.clone() }),
            Request::Custom(request::CustomArgs::from(t.as_bytes().to_vec())),
            Request::InternalDebug(request::InternalDebugArgs { input: t.as_bytes().to_vec() }),
        ];
        for q in reqs {
            let m = Msg::from(q.clone());
            let id = m.header.id;
            if p.msg(&m).is_err() {
                c.violation("text-ends-connection", &format!("the connection ended after requests with {}", truncate(&format!("{:?}", t), 90)), json!({"request": truncate(&format!("{:?}", q), 300)}));
                return;
            }
            let got = p.recv(1, Duration::from_secs(20)).pop();
            match &got {
                Some(x) if matches!(&x.content, Content::Reply(_)) && x.parent_header.as_ref().map(|h| h.id) == Some(id) => c.count("texts_answered", 1),
                x => {
                    c.violation("text-unanswered", &format!("{} gave {}", truncate(&format!("{:?}", q), 300), truncate(&format!("{:?}", x), 200)), json!({"text": truncate(t, 200)}));
                    return;
                }
            }
        }
        c.eval();
        c.distinct(&("text", i));
    }
}

/// A peer that has said everything still gets its replies, and then the end.
fn half_closed(c: &Ctx, i: u64) {
    let mut r = c.rng("half", i);
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let srv = match SrvCfg::new(Proto::Tcp, auth.clone(), crypt.clone()).start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let mut p = match RawPeer::connect(Proto::Tcp, srv.addr, &auth, &crypt) {
        Ok(p) => p,
        Err(_) => return c.inconclusive("raw peer"),
    };
    let n = r.gen_range(0, 8u64);
    let jobs: Vec<Job> = (0..n).map(|k| Job { id: (i << 8) | k, delay_ms: r.gen_range(0, 4), reply_len: r.gen_range(0, 4000), fail: r.gen_bool(0.2), pad: r.gen_range(0, 500) }).collect();
    for j in &jobs {
        if p.msg(&Msg::from(custom(j))).is_err() {
            return c.inconclusive("raw peer could not send");
        }
    }
    if let RawSock::Tcp(s) = &p.sock {
        let _ = s.shutdown(std::net::Shutdown::Write);
    }
    let t = Instant::now();
    let got = p.recv(usize::max_value(), Duration::from_secs(20));
    let ended = t.elapsed() < Duration::from_secs(19);
    if got.len() as u64 != n {
        c.violation("half-closed-replies", &format!("{:?}/{:?}: a peer that closed its sending side got {} of {} replies", sec.ak, sec.ck, got.len(), n), json!({"case": i}));
    } else if !ended {
        c.violation("half-closed-end", &format!("{:?}/{:?}: the connection of a peer that closed its sending side was not closed within 19 s of its {} replies", sec.ak, sec.ck, n), json!({"case": i}));
    }
    c.eval();
    c.distinct(&("half", sec.ak, sec.ck, n));
}

/// Many connections come and go: descriptors and CPU return to their level.
fn gauges(c: &Ctx) {
    let mut r = c.rng("gauges", 0);
    let rounds = c.pick(3, 12);
    for round in 0..rounds {
        let sec = Sec::random(&mut r);
        let (auth, crypt) = (sec.auth(), sec.crypt());
        let srv = match SrvCfg::new(Proto::Tcp, auth.clone(), crypt.clone()).start() {
            Ok(s) => s,
            Err(_) => return c.inconclusive("server did not start"),
        };
        std::thread::sleep(Duration::from_millis(50));
        let fds0 = open_fds();
        let n = c.pick(60, 200);
        let mut kinds = vec![];
        for k in 0..n {
            let mut p = match RawPeer::connect(Proto::Tcp, srv.addr, &auth, &crypt) {
                Ok(p) => p,
                Err(e) => {
                    c.violation("connections-refused", &format!("connection {} of {} (all earlier ones closed) failed: {}", k, n, e), json!({"round": round}));
                    return;
                }
            };
            let kind = r.gen_range(0, 6);
            kinds.push(kind);
            match kind {
                0 => {}
                1 => {
                    let _ = p.msg(&Msg::from(Request::Heartbeat));
                    p.recv(1, Duration::from_secs(5));
                }
                2 => {
                    let b = rand_bytes(&mut r, 200);
                    let _ = p.bytes(&b);
                }
                3 => {
                    // gone before its replies are ready
                    let j = Job { id: 1, delay_ms: 3, reply_len: 3000, fail: false, pad: 3 };
                    let _ = p.msg(&Msg::from(custom(&j)));
                    let _ = p.msg(&Msg::from(custom(&j)));
                }
                4 => {
                    let v = (p.out)(&[7; 300]).unwrap_or_default();
                    let _ = p.bytes(&v[0][..v[0].len() / 2]);
                }
                _ => {
                    if let RawSock::Tcp(s) = &p.sock {
                        let _ = s.shutdown(std::net::Shutdown::Write);
                    }
                }
            }
            if let RawSock::Tcp(s) = &p.sock {
                if r.gen_bool(0.3) {
                    reset_on_close(s);
                }
            }
        }
        let back = eventually(Duration::from_secs(15), || open_fds() <= fds0 + 3);
        if !back {
            c.violation("fd-leak", &format!("{} descriptors before {} connections came and went, {} long after", fds0, n, open_fds()), json!({"round": round, "endings": kinds}));
            return;
        }
        // nothing spins
        let (mut best, t) = (u64::max_value(), Instant::now());
        while t.elapsed() < Duration::from_secs(10) && best > 250 {
            let a = cpu_ms();
            std::thread::sleep(Duration::from_millis(700));
            best = best.min(cpu_ms() - a);
        }
        if best > 250 {
            c.violation("cpu-spin", &format!("with every peer gone, the process goes on using {} ms of CPU per 700 ms", best), json!({"round": round, "endings": kinds}));
            return;
        }
        // and it still serves
        let mut p = match RawPeer::connect(Proto::Tcp, srv.addr, &auth, &crypt) {
            Ok(p) => p,
            Err(_) => return c.inconclusive("raw peer"),
        };
        let _ = p.msg(&Msg::from(Request::Heartbeat));
        if p.recv(1, Duration::from_secs(15)).len() != 1 {
            c.violation("unanswered-after-churn", "a new peer is not answered after many others came and went", json!({"round": round}));
        }
        c.eval();
        c.count("connections_churned", n as u64);
        c.distinct(&("gauges", sec.ak, sec.ck, kinds));
    }
}

/// Asks that end without a reply leave nothing behind in the client, and a
/// client whose server is gone does not spin.
fn callbacks(c: &Ctx) {
    for &proto in &[Proto::Udp, Proto::Tcp] {
        let sink_udp = std::net::UdpSocket::bind(loopback(0)).unwrap();
        let sink_tcp = std::net::TcpListener::bind(loopback(0)).unwrap();
        let addr = if proto == Proto::Udp { sink_udp.local_addr().unwrap() } else { sink_tcp.local_addr().unwrap() };
        let stop = Arc::new(AtomicBool::new(false));
        let eaten = Arc::new(AtomicU64::new(0));
        let (s2, e2) = (stop.clone(), eaten.clone());
        let h = std::thread::spawn(move || {
            use std::io::Read;
            let mut buf = [0u8; 65_536];
            let _ = sink_udp.set_read_timeout(Some(Duration::from_millis(50)));
            let _ = sink_tcp.set_nonblocking(true);
            let mut conn: Option<std::net::TcpStream> = None;
            while !s2.load(Ordering::Relaxed) {
                if proto == Proto::Udp {
                    if sink_udp.recv_from(&mut buf).is_ok() {
                        e2.fetch_add(1, Ordering::Relaxed);
                    }
                } else if let Some(x) = &mut conn {
                    match x.read(&mut buf) {
                        Ok(0) => break,
                        Ok(n) => {
                            e2.fetch_add(n as u64, Ordering::Relaxed);
                        }
                        _ => {}
                    }
                } else if let Ok((x, _)) = sink_tcp.accept() {
                    let _ = x.set_nonblocking(false);
                    let _ = x.set_read_timeout(Some(Duration::from_millis(50)));
                    conn = Some(x);
                } else {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
        });
        let mut rt = runtime(2);
        let (auth, crypt) = (make_auth(AuthKind::Noop, &[]), make_crypt(CryptKind::Noop, &[0; 64]));
        let mut cl = match rt.block_on(async { connect(proto, addr, &auth, &crypt).await }) {
            Ok(x) => x,
            Err(_) => {
                stop.store(true, Ordering::Relaxed);
                c.inconclusive("client did not connect");
                continue;
            }
        };
        cl.timeout = Duration::from_micros(300);
        let batch = |rt: &mut tokio::runtime::Runtime, cl: &mut over_there::core::ConnectedClient, n: u32| {
            rt.block_on(async {
                for _ in 0..n {
                    let _ = cl.ask(Request::Heartbeat).await;
                }
            });
            std::thread::sleep(Duration::from_millis(150));
            live_bytes()
        };
        let n = c.pick(3000, 20_000);
        let _ = batch(&mut rt, &mut cl, n);
        let a = batch(&mut rt, &mut cl, n);
        let b = batch(&mut rt, &mut cl, n);
        let d = batch(&mut rt, &mut cl, n);
        // anything retained per ask (a boxed callback with its channel) shows
        // up in both steps
        let per = ((b - a).min(d - b)) as f64 / n as f64;
        if per > 24.0 {
            c.violation("ask-leak", &format!("{:?}: each ask that timed out leaves about {:.0} bytes allocated", proto, per), json!({"asks": n, "live": [a, b, d]}));
        }
        c.eval();
        c.count("asks_abandoned", 4 * n as u64);
        c.distinct(&("callbacks", proto));
        // the server goes away
        stop.store(true, Ordering::Relaxed);
        let _ = h.join();
        std::thread::sleep(Duration::from_millis(100));
        let (mut best, t) = (u64::max_value(), Instant::now());
        while t.elapsed() < Duration::from_secs(8) && best > 250 {
            let a = cpu_ms();
            std::thread::sleep(Duration::from_millis(700));
            best = best.min(cpu_ms() - a);
        }
        if best > 250 {
            c.violation("client-cpu-spin", &format!("{:?}: a client whose server is gone uses {} ms of CPU per 700 ms", proto, best), json!({}));
        }
        rt.shutdown_timeout(Duration::from_millis(100));
    }
}
