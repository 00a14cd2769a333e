//! Monitors of clients and servers over real sockets (C08 – C10).
use crate::common::*;
use crate::kinds::*;
use crate::rig::*;
use over_there::core::{
    reply, request, AskError, Content, Header, LazilyTransformedRequest, Msg, Reply, ReplyError, Request,
};
use over_there::core::transport::{TcpStreamWire, Wire};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const PATIENT: Duration = Duration::from_secs(25);

fn is_authed(a: AuthKind, c: CryptKind) -> bool {
    a != AuthKind::Noop || matches!(c, CryptKind::Siv128 | CryptKind::Siv256 | CryptKind::Gcm128 | CryptKind::Gcm256 | CryptKind::GcmSiv128 | CryptKind::GcmSiv256)
}

#[derive(Clone, Debug)]
pub enum Op {
    Ask(Job),
    Tell(Job),
    Seq(Vec<Job>),
    Batch(Vec<Job>),
    Heartbeat,
    Version,
    Forwardless,
}

pub fn custom(j: &Job) -> Request {
    Request::Custom(request::CustomArgs::from(j.encode()))
}

/// Judges the outcome of one ask against what the server produces for exactly
/// this request; `None` = as specified.
pub fn judge(op: &Op, res: &Result<Reply, AskError>) -> Option<String> {
    let job_reply = |j: &Job, r: &Reply| -> Option<String> {
        if j.fail {
            match r {
                Reply::Error(ReplyError::Generic(x)) if x.msg == j.error() => None,
                x => Some(format!("job {} expected error, got {}", j.id, truncate(&format!("{:?}", x), 200))),
            }
        } else {
            match r {
                Reply::Custom(x) if x.data == j.reply() => None,
                Reply::Custom(x) => {
                    let who = if x.data.len() >= 8 {
                        let mut a = [0u8; 8];
                        a.copy_from_slice(&x.data[..8]);
                        u64::from_be_bytes(a)
                    } else {
                        0
                    };
                    Some(format!("job {} got the reply of job {} ({} bytes)", j.id, who, x.data.len()))
                }
                x => Some(format!("job {} got {}", j.id, truncate(&format!("{:?}", x), 200))),
            }
        }
    };
    match (op, res) {
        (Op::Ask(j), Err(AskError::Failure { msg })) => {
            if j.fail && *msg == j.error() { None } else { Some(format!("job {} failed with {:?}", j.id, msg)) }
        }
        (Op::Ask(j), Ok(r)) => job_reply(j, r),
        (Op::Seq(js), Ok(Reply::Sequence(reply::SequenceArgs { results })))
        | (Op::Batch(js), Ok(Reply::Batch(reply::BatchArgs { results }))) => {
            if js.len() != results.len() {
                return Some(format!("{} operations, {} results", js.len(), results.len()));
            }
            let seq = matches!(op, Op::Seq(_));
            let mut failed = false;
            for (j, r) in js.iter().zip(results) {
                if seq && failed {
                    if !matches!(r, Reply::Error(_)) {
                        return Some(format!("job {} ran after a failure in its sequence", j.id));
                    }
                    continue;
                }
                if let Some(e) = job_reply(j, r) {
                    return Some(e);
                }
                failed |= j.fail;
            }
            None
        }
        (Op::Heartbeat, Ok(Reply::Heartbeat)) => None,
        (Op::Version, Ok(Reply::Version(_))) => None,
        (Op::Forwardless, Ok(Reply::Batch(b))) if b.results.len() == 2 && matches!(b.results[1], Reply::Heartbeat) => None,
        (_, Ok(r)) => Some(format!("wrong kind of reply: {}", truncate(&format!("{:?}", r), 200))),
        (_, Err(e)) => Some(format!("error {:?}", e)),
    }
}

fn to_request(op: &Op) -> Request {
    match op {
        Op::Ask(j) | Op::Tell(j) => custom(j),
        Op::Seq(js) => Request::Sequence(request::SequenceArgs {
            operations: js.iter().map(|j| LazilyTransformedRequest::new(custom(j), vec![])).collect(),
        }),
        Op::Batch(js) => Request::Batch(request::BatchArgs { operations: js.iter().map(custom).collect() }),
        Op::Heartbeat => Request::Heartbeat,
        Op::Version => Request::Version,
        Op::Forwardless => Request::Batch(request::BatchArgs {
            operations: vec![
                Request::Forward(request::ForwardArgs { address: loopback(9), request: Box::new(Request::Heartbeat) }),
                Request::Heartbeat,
            ],
        }),
    }
}


// ---------------------------------------------------------------- C08
pub fn c08(ctx: &Ctx) -> i32 {
    let n = ctx.pick(90, 1500);
    let stall = Stall::start();
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(90, 600)), move |i| {
        let mut r = c.rng("asks", i);
        c08_case(&c, i, &mut r, &stall);
    });
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(80, 1500), Duration::from_secs(ctx.pick(40, 200)), move |i| twins_case(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(80, 1500), Duration::from_secs(ctx.pick(40, 200)), move |i| liar_case(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(60, 1500), Duration::from_secs(ctx.pick(40, 200)), move |i| burst_case(&c, i));
    let c = ctx.clone();
    let stall = Stall::start();
    par_cases(ctx, ctx.pick(24, 400), Duration::from_secs(ctx.pick(40, 200)), move |i| deaf_case(&c, i, &stall));
    ctx.report_panics("clients and servers exchange messages");
    ctx.finish(
        "1-6 clients x 5-25 seeded operations (asks, tells, failing asks, sequences, batches, impatient asks whose \
         replies come late) against one real server; TCP direct or through a segmenting proxy, UDP direct or \
         through a proxy that drops, duplicates, delays, reorders and corrupts datagrams; server restarts; \
         peers reusing each other's message ids; a server that sends unrelated replies, requests and duplicates \
         around the real reply; non-trivial = at least 5 operations were judged; distinct by (transport, security, outcome sequence)",
        20,
        &["custom handler replies are a function of the request id, so a reply identifies its request",
          "UDP without injected faults is judged only when the kernel reported no datagram drops"],
    )
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Net {
    TcpDirect,
    TcpChopped,
    UdpDirect,
    UdpFaulty,
    UdpRestart,
}

fn c08_case(c: &Ctx, i: u64, r: &mut StdRng, stall: &Stall) {
    let net = *[Net::TcpDirect, Net::TcpChopped, Net::TcpChopped, Net::UdpDirect, Net::UdpFaulty, Net::UdpFaulty, Net::UdpFaulty, Net::UdpRestart]
        .choose(r)
        .unwrap();
    let proto = match net {
        Net::TcpDirect | Net::TcpChopped => Proto::Tcp,
        _ => Proto::Udp,
    };
    let ak = *AUTHS.choose(r).unwrap();
    let ck = *CRYPTS.choose(r).unwrap();
    let akey = rand_auth_key(r);
    let ckey = rand_key(r);
    let cache = r.gen_bool(0.25);
    let auth = make_auth(ak, &akey);
    let crypt = || if cache { with_cache(make_crypt(ck, &ckey), 10_000) } else { make_crypt(ck, &ckey) };
    let desc = format!("{:?} {:?}/{:?}{}", net, ak, ck, if cache { "+cache" } else { "" });
    let mut cfg = SrvCfg::new(proto, auth.clone(), crypt());
    cfg.cloneable = r.gen();
    let buffer = *[1usize, 1, 2, 5, 1000].choose(r).unwrap();
    cfg.buffer = buffer;
    let log = cfg.log.clone();
    let mut srv = match cfg.start() {
        Ok(s) => Some(s),
        Err(_) => return c.inconclusive("server did not start"),
    };
    let saddr = srv.as_ref().unwrap().addr;
    let faults = UdpFaults {
        drop: *[0.0, 0.05, 0.15].choose(r).unwrap(),
        dup: *[0.0, 0.1, 0.4].choose(r).unwrap(),
        delay: *[0.1, 0.5, 0.9].choose(r).unwrap(),
        max_delay_ms: *[2, 20, 80].choose(r).unwrap(),
        corrupt: if is_authed(ak, ck) && ak != AuthKind::Noop { *[0.0, 0.03].choose(r).unwrap() } else { 0.0 },
    };
    let udp_proxy = if net == Net::UdpFaulty { UdpProxy::start(saddr, faults, r.gen()).ok() } else { None };
    let tcp_proxy = if net == Net::TcpChopped { TcpProxy::start(saddr, r.gen()).ok() } else { None };
    let target = udp_proxy.as_ref().map(|p| p.addr).or(tcp_proxy.as_ref().map(|p| p.addr)).unwrap_or(saddr);
    let lossy = net == Net::UdpFaulty;
    let maxlen: u32 = if proto == Proto::Tcp { 20_000 } else if lossy { 1500 } else { 2500 };
    let clients = r.gen_range(1, 7);

    // the script of every client
    let mut scripts: Vec<Vec<(Op, Duration)>> = vec![];
    for cl in 0..clients {
        let mut seq = 0u64;
        let mut job = |r: &mut StdRng, delay: u16| {
            seq += 1;
            Job {
                id: (i << 24) | ((cl as u64) << 16) | seq,
                delay_ms: delay,
                reply_len: if r.gen_bool(0.3) { r.gen_range(0, maxlen) } else { r.gen_range(0, 300) },
                fail: r.gen_bool(0.15),
                pad: if r.gen_bool(0.2) { r.gen_range(0, maxlen) } else { r.gen_range(0, 200) },
            }
        };
        let mut s = vec![];
        for _ in 0..r.gen_range(5, 26) {
            let patience = if lossy { Duration::from_millis(r.gen_range(150, 500)) } else { PATIENT };
            s.push(match r.gen_range(0, 20) {
                0..=7 => {
                    let d = if r.gen_bool(0.1) { r.gen_range(1, 10) } else { 0 };
                    (Op::Ask(job(r, d)), patience)
                }
                // the reply comes after the client gave up
                8..=9 => {
                    let d = r.gen_range(15, 40);
                    (Op::Ask(job(r, d)), Duration::from_millis(r.gen_range(1, 12)))
                }
                10..=12 => (Op::Tell(Job { reply_len: r.gen_range(0, 200), pad: r.gen_range(0, 200), ..job(r, 0) }), patience),
                13 | 14 => (Op::Seq((0..r.gen_range(0, 4)).map(|_| Job { reply_len: 40, pad: 30, ..job(r, 0) }).collect()), patience),
                15 | 16 => (Op::Batch((0..r.gen_range(0, 5)).map(|_| Job { reply_len: 40, pad: 30, ..job(r, 0) }).collect()), patience),
                17 => (Op::Version, patience),
                18 => (Op::Forwardless, patience),
                _ => (Op::Heartbeat, patience),
            });
        }
        scripts.push(s);
    }
    stall.reset();
    let drops0 = udp_kernel_drops();
    let mut rt = runtime(2);
    let problems: Arc<Mutex<Vec<(String, String, Value)>>> = std::default::Default::default();
    let stats: Arc<Mutex<HashMap<&'static str, u64>>> = std::default::Default::default();
    let h = rt.handle().clone();
    let auth2 = auth.clone();
    let scripts2 = scripts.clone();
    let (p2, s2) = (problems.clone(), stats.clone());
    let crypts: Vec<DynCrypt> = (0..clients).map(|_| crypt()).collect();
    let (outcome, mut cls) = rt.block_on(async {
        let mut hs = vec![];
        for (cl, script) in scripts2.into_iter().enumerate() {
            let (auth, crypt, problems, stats) = (auth2.clone(), crypts[cl].clone(), p2.clone(), s2.clone());
            hs.push(h.spawn(async move {
                let mut out = vec![];
                let mut client = match connect_with(proto, target, &auth, &crypt, buffer).await {
                    Ok(x) => x,
                    Err(_) => return (out, None),
                };
                for (k, (op, patience)) in script.into_iter().enumerate() {
                    if let Op::Tell(_) = op {
                        if let Err(e) = client.tell(to_request(&op)).await {
                            problems.lock().unwrap().push(("tell-failed".into(), format!("client {} op {}: tell failed: {:?}", cl, k, e), json!(null)));
                        }
                        *stats.lock().unwrap().entry("tells").or_insert(0) += 1;
                        out.push(1);
                        continue;
                    }
                    client.timeout = patience;
                    let t = Instant::now();
                    let res = match tokio::time::timeout(patience + Duration::from_secs(20), client.ask(to_request(&op))).await {
                        Ok(x) => x,
                        Err(_) => {
                            problems.lock().unwrap().push(("ask-never-resolved".into(), format!("client {} op {} {:?} did not resolve within its timeout of {:?}", cl, k, op, patience), json!({"deadline": true})));
                            break;
                        }
                    };
                    if let Err(AskError::Timeout) = res {
                        out.push(2);
                        *stats.lock().unwrap().entry("timeouts").or_insert(0) += 1;
                        if t.elapsed() + Duration::from_millis(2) < patience {
                            problems.lock().unwrap().push(("early-timeout".into(), format!("client {} op {}: timeout after {:?} of {:?}", cl, k, t.elapsed(), patience), json!(null)));
                        }
                        if patience == PATIENT {
                            problems.lock().unwrap().push(("unanswered".into(), format!("client {} op {} {:?}: no answer within {:?} although nothing was lost", cl, k, truncate(&format!("{:?}", op), 300), patience), json!({"deadline": true})));
                            break;
                        }
                        continue;
                    }
                    *stats.lock().unwrap().entry("answers").or_insert(0) += 1;
                    out.push(3);
                    if let Some(e) = judge(&op, &res) {
                        problems.lock().unwrap().push(("wrong-reply".into(), format!("client {} op {}: {}", cl, k, e), json!({"op": truncate(&format!("{:?}", op), 500)})));
                    }
                }
                (out, Some(client))
            }));
        }
        let mut outs: Vec<Vec<u8>> = vec![];
        let mut cls = vec![];
        for h in hs {
            if let Ok((o, c)) = h.await {
                outs.push(o);
                cls.push(c);
            }
        }
        (outs, cls)
    });
    // faults stop, or the server goes away and comes back: asks must be answered again
    let mut restarted = false;
    if net == Net::UdpRestart {
        srv.take().unwrap().stop();
        rt.block_on(async {
            for cl in cls.iter_mut().flatten() {
                cl.timeout = Duration::from_millis(60);
                for _ in 0..2 {
                    match cl.ask(Request::Heartbeat).await {
                        Err(AskError::Timeout) | Err(AskError::SendFailed) => {}
                        x => p2.lock().unwrap().push(("answer-from-nowhere".into(), format!("ask without a server returned {:?}", x), json!(null))),
                    }
                }
            }
        });
        let mut cfg = SrvCfg::new(proto, auth2.clone(), crypt());
        cfg.addr = saddr;
        cfg.log = log.clone();
        match cfg.start() {
            Ok(s) => {
                srv = Some(s);
                restarted = true;
            }
            Err(_) => c.inconclusive("port was taken before the server came back"),
        }
    }
    rt.block_on(async {
        if let Some(p) = &udp_proxy {
            p.on.store(false, Ordering::Relaxed);
        }
        if lossy || restarted {
            // what was delayed drains first
            tokio::time::delay_for(Duration::from_millis(faults.max_delay_ms + 100)).await;
            for (cl, x) in cls.iter_mut().enumerate() {
                if let Some(x) = x {
                    x.timeout = PATIENT / 3;
                    let j = Job { id: (i << 24) | ((cl as u64) << 16) | 0xffff, delay_ms: 0, reply_len: 700, fail: false, pad: 10 };
                    let mut ok = false;
                    for _ in 0..3 {
                        match x.ask(custom(&j)).await {
                            Err(AskError::Timeout) | Err(AskError::SendFailed) => continue,
                            res => {
                                ok = true;
                                if let Some(e) = judge(&Op::Ask(j), &res) {
                                    p2.lock().unwrap().push(("wrong-reply".into(), format!("client {} after recovery: {}", cl, e), json!(null)));
                                }
                                break;
                            }
                        }
                    }
                    if !ok {
                        p2.lock().unwrap().push(("no-recovery".into(), format!("client {}: no answer {} although faults had stopped", cl, if restarted { "from the restarted server" } else { "" }), json!({"deadline": true})));
                    } else {
                        *s2.lock().unwrap().entry("recoveries").or_insert(0) += 1;
                    }
                }
            }
        }
    });
    // the server's side of the history
    let mut expect: Vec<Vec<u64>> = vec![];
    for s in &scripts {
        let mut v = vec![];
        for (op, _) in s {
            match op {
                Op::Ask(j) | Op::Tell(j) => v.push(j.id),
                Op::Seq(js) => {
                    for j in js {
                        v.push(j.id);
                        if j.fail {
                            break;
                        }
                    }
                }
                Op::Batch(js) => v.extend(js.iter().map(|j| j.id)),
                _ => {}
            }
        }
        expect.push(v);
    }
    let total: usize = expect.iter().map(|v| v.len()).sum();
    let deadline_hit = problems.lock().unwrap().iter().any(|p| p.2["deadline"] == true);
    if !lossy && !deadline_hit {
        eventually(Duration::from_secs(20), || log.ids.lock().unwrap().len() >= total);
    }
    let ran = log.snapshot();
    let drops = if proto == Proto::Udp { udp_kernel_drops() - drops0 } else { 0 };
    let quiet = stall.worst_ms() < 1500 && drops == 0;
    if drops > 0 && srv.is_some() && udp_unread(saddr, stall) {
        problems.lock().unwrap().push(("server-stopped-reading".into(), "datagrams stay unread in the server's socket".into(), json!(null)));
    }
    let mut add = |sig: &str, msg: String| problems.lock().unwrap().push((sig.into(), msg, json!(null)));
    let mut times: HashMap<u64, u32> = HashMap::new();
    for x in &ran {
        *times.entry(*x).or_insert(0) += 1;
    }
    let dups_possible = lossy && faults.dup > 0.0 && !(cache && ck != CryptKind::Noop);
    for (id, n) in &times {
        if *n > 1 && !dups_possible && id & 0xffff != 0xffff {
            add("ran-twice", format!("request {:x} was executed {} times", id, n));
        }
        if id & 0xffff != 0xffff && !expect.iter().any(|v| v.contains(id)) {
            add("ran-unasked", format!("request {:x} was executed although it must not run", id));
        }
    }
    if log.corrupt.load(Ordering::SeqCst) > 0 {
        add("request-corrupt", format!("{} custom requests arrived altered", log.corrupt.load(Ordering::SeqCst)));
    }
    if !lossy && !deadline_hit {
        for (cl, v) in expect.iter().enumerate() {
            for id in v {
                if !times.contains_key(id) {
                    problems.lock().unwrap().push(("never-ran".into(), format!("client {}: request {:x} was sent but never executed", cl, id), json!({"deadline": true})));
                    break;
                }
            }
            if proto == Proto::Tcp {
                // one connection is served in order (batches run in parallel, so
                // only the order of the other requests is compared)
                let batch: std::collections::HashSet<u64> = scripts[cl]
                    .iter()
                    .filter_map(|(o, _)| if let Op::Batch(js) = o { Some(js.iter().map(|j| j.id).collect::<Vec<_>>()) } else { None })
                    .flatten()
                    .collect();
                let got: Vec<u64> = ran.iter().filter(|x| (*x >> 16) & 0xff == cl as u64 && !batch.contains(x)).cloned().collect();
                let want: Vec<u64> = v.iter().filter(|x| !batch.contains(x)).cloned().collect();
                if got.len() == want.len() && got != want {
                    problems.lock().unwrap().push(("out-of-order".into(), format!("client {}: requests of one connection ran out of order: {:x?} instead of {:x?}", cl, got, want), json!(null)));
                }
            }
        }
    }
    if let Some(p) = &tcp_proxy {
        c.count("tcp_pieces", p.pieces.load(Ordering::Relaxed));
    }
    if let Some(p) = &udp_proxy {
        c.count("udp_faults_injected", p.faults.load(Ordering::Relaxed));
    }
    rt.shutdown_timeout(Duration::from_millis(200));
    drop(srv);
    let nops: usize = outcome.iter().map(|o| o.len()).sum();
    c.eval();
    c.count("operations", nops as u64);
    c.count("requests_executed", ran.len() as u64);
    for (k, v) in stats.lock().unwrap().iter() {
        c.count(k, *v);
    }
    if nops >= 5 {
        c.distinct(&(desc.clone(), &outcome));
    }
    c.sample(json!({"case": i, "config": desc, "clients": clients, "outcomes(1=tell,2=timeout,3=answer)": outcome.iter().map(|o| o.iter().map(|x| x.to_string()).collect::<String>()).collect::<Vec<_>>()}));
    for (sig, msg, w) in problems.lock().unwrap().drain(..) {
        if w["deadline"] == true && !quiet {
            c.inconclusive("a deadline passed while the machine stalled or dropped datagrams");
            continue;
        }
        c.violation(&sig, &format!("{}: {}", desc, msg), json!({"case": i, "config": desc, "detail": w}));
    }
}


// ------------------------------------------------------- raw peers (C08, C10)
/// Splits a byte stream into packets, as any peer must.
pub struct Deframe(Vec<u8>);
impl Deframe {
    pub fn new() -> Self {
        Deframe(vec![])
    }
    pub fn push(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    pub fn next(&mut self) -> Option<Vec<u8>> {
        use serde::de::{Deserialize, IgnoredAny};
        if self.0.is_empty() {
            return None;
        }
        let n = {
            let mut de = serde_cbor::Deserializer::from_slice(&self.0);
            match IgnoredAny::deserialize(&mut de) {
                Ok(_) => de.byte_offset(),
                Err(_) => return None,
            }
        };
        Some(self.0.drain(..n).collect())
    }
}

/// A peer under full control of the monitor, speaking through the public wire.
pub struct RawPeer {
    pub inb: crate::wire::In,
    pub out: crate::wire::Out,
    pub sock: RawSock,
    pub auth: DynAuth,
    de: Deframe,
}
pub enum RawSock {
    Tcp(std::net::TcpStream),
    Udp(std::net::UdpSocket, std::net::SocketAddr),
}
impl RawPeer {
    pub fn connect(proto: Proto, addr: std::net::SocketAddr, a: &DynAuth, b: &DynCrypt) -> std::io::Result<RawPeer> {
        let (sock, size) = match proto {
            Proto::Tcp => {
                let s = std::net::TcpStream::connect(addr)?;
                s.set_nodelay(true)?;
                s.set_read_timeout(Some(Duration::from_millis(20)))?;
                s.set_write_timeout(Some(Duration::from_secs(10)))?;
                (RawSock::Tcp(s), 1500)
            }
            Proto::Udp => {
                let s = std::net::UdpSocket::bind(loopback(0))?;
                s.set_read_timeout(Some(Duration::from_millis(20)))?;
                (RawSock::Udp(s, addr), 508)
            }
        };
        Ok(RawPeer::over(sock, size, a, b))
    }
    pub fn over(sock: RawSock, size: usize, a: &DynAuth, b: &DynCrypt) -> RawPeer {
        let (inb, out) = crate::wire::ends(size, Duration::from_secs(300), a.clone(), b.clone(), false);
        RawPeer { inb, out, sock, auth: a.clone(), de: Deframe::new() }
    }
    pub fn local(&self) -> std::net::SocketAddr {
        match &self.sock {
            RawSock::Tcp(s) => s.local_addr().unwrap(),
            RawSock::Udp(s, _) => s.local_addr().unwrap(),
        }
    }
    pub fn bytes(&mut self, b: &[u8]) -> std::io::Result<()> {
        use std::io::Write;
        match &mut self.sock {
            RawSock::Tcp(s) => s.write_all(b),
            RawSock::Udp(s, a) => s.send_to(b, *a).map(|_| ()),
        }
    }
    pub fn payload(&mut self, p: &[u8]) -> std::io::Result<()> {
        let v = (self.out)(p).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e)))?;
        for x in v {
            self.bytes(&x)?;
        }
        Ok(())
    }
    pub fn msg(&mut self, m: &Msg) -> std::io::Result<()> {
        let v = m.to_vec().map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e)))?;
        self.payload(&v)
    }
    /// Messages that arrive until `limit` passes or `want` were received.
    pub fn recv(&mut self, want: usize, limit: Duration) -> Vec<Msg> {
        use std::io::Read;
        let t = Instant::now();
        let mut got = vec![];
        let mut buf = [0u8; 65_536];
        while got.len() < want && t.elapsed() < limit {
            let mut pk = vec![];
            match &mut self.sock {
                RawSock::Tcp(s) => match s.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => {
                        self.de.push(&buf[..n]);
                        while let Some(p) = self.de.next() {
                            pk.push(p);
                        }
                    }
                    Err(_) => {}
                },
                RawSock::Udp(s, a) => {
                    if let Ok((n, from)) = s.recv_from(&mut buf) {
                        *a = from;
                        pk.push(buf[..n].to_vec());
                    }
                }
            }
            for p in pk {
                if let Ok(Some(d)) = (self.inb)(&p) {
                    if let Ok(m) = Msg::from_slice(&d) {
                        got.push(m);
                    }
                }
            }
        }
        got
    }
}

pub struct Sec {
    pub ak: AuthKind,
    pub ck: CryptKind,
    pub akey: Vec<u8>,
    pub ckey: [u8; 64],
}
impl Sec {
    pub fn random(r: &mut StdRng) -> Sec {
        Sec { ak: *AUTHS.choose(r).unwrap(), ck: *CRYPTS.choose(r).unwrap(), akey: rand_auth_key(r), ckey: rand_key(r) }
    }
    pub fn auth(&self) -> DynAuth {
        make_auth(self.ak, &self.akey)
    }
    pub fn crypt(&self) -> DynCrypt {
        make_crypt(self.ck, &self.ckey)
    }
}

/// Several peers use the same message id at the same time: each must get its
/// own reply, carrying the header of its own request.
fn twins_case(c: &Ctx, i: u64) {
    let mut r = c.rng("twins", i);
    let proto = if r.gen() { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let srv = match SrvCfg::new(proto, auth.clone(), crypt.clone()).start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let (n, rounds) = match (r.gen_range(0, 8), proto) {
        // a crowd
        (0, Proto::Tcp) => (r.gen_range(40, 250), r.gen_range(1, 3)),
        (0, _) => (r.gen_range(30, 60), 1),
        _ => (r.gen_range(2, 6), r.gen_range(1, 5)),
    };
    let mut peers: Vec<RawPeer> = (0..n).filter_map(|_| RawPeer::connect(proto, srv.addr, &auth, &crypt).ok()).collect();
    let drops0 = udp_kernel_drops();
    let mut mine: Vec<Vec<(Header, Job)>> = vec![vec![]; peers.len()];
    let id0: u32 = r.gen();
    for k in 0..rounds {
        for p in 0..peers.len() {
            // a peer may also reuse an id it used before
            let h = Header::with_id(if r.gen_bool(0.7) { id0 } else { r.gen() });
            let j = Job { id: (i << 16) | ((p as u64) << 8) | k, delay_ms: 0, reply_len: r.gen_range(0, 900), fail: r.gen_bool(0.2), pad: r.gen_range(0, 600) };
            let mut m = Msg::from(custom(&j));
            m.header = h.clone();
            if r.gen_bool(0.3) {
                m.parent_header = Some(Header::with_id(r.gen()));
            }
            if peers[p].msg(&m).is_err() {
                return c.inconclusive("raw peer could not send");
            }
            mine[p].push((h, j));
        }
    }
    for p in 0..peers.len() {
        let got = peers[p].recv(mine[p].len(), Duration::from_secs(20));
        let extra = peers[p].recv(1, Duration::from_millis(5));
        if got.len() < mine[p].len() {
            if udp_kernel_drops() == drops0 {
                c.violation("raw-unanswered", &format!("{:?}: peer {} got {} replies to {} requests", proto, p, got.len(), mine[p].len()), json!({"case": i}));
            }
            return;
        }
        if !extra.is_empty() {
            c.violation("raw-extra", &format!("{:?}: peer {} got more replies than it made requests", proto, p), json!({"case": i}));
        }
        let mut left = mine[p].clone();
        for m in got {
            let key = match &m.content {
                Content::Reply(Reply::Custom(x)) => left.iter().position(|(_, j)| !j.fail && j.reply() == x.data),
                Content::Reply(Reply::Error(ReplyError::Generic(x))) => left.iter().position(|(_, j)| j.fail && j.error() == x.msg),
                _ => None,
            };
            match key {
                None => {
                    c.violation("raw-wrong-reply", &format!("{:?}: peer {} received a reply to something it did not ask: {}", proto, p, truncate(&format!("{:?}", m), 300)), json!({"case": i}));
                    return;
                }
                Some(k) => {
                    let (h, j) = left.remove(k);
                    if m.parent_header.as_ref() != Some(&h) {
                        c.violation("raw-wrong-parent", &format!("{:?}: reply to job {} names {:?} instead of {:?} as its request", proto, j.id, m.parent_header, h), json!({"case": i}));
                        return;
                    }
                }
            }
        }
    }
    c.eval();
    c.max("peers_at_once", peers.len() as u64);
    c.count("raw_requests", (rounds * n as u64) as u64);
    c.distinct(&("twins", proto, sec.ak, sec.ck, n, rounds));
}

/// A server that answers an ask with everything but its reply first.
/// Bursts of requests faster than they are worked off, with little room between
/// the tasks: nothing that reached the server's socket may be lost.
fn burst_case(c: &Ctx, i: u64) {
    let mut r = c.rng("bursts", i);
    let proto = if r.gen_bool(0.3) { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let mut cfg = SrvCfg::new(proto, auth.clone(), crypt.clone());
    cfg.buffer = *[1usize, 2, 8, 1000].choose(&mut r).unwrap();
    cfg.cloneable = r.gen();
    let (buffer, log) = (cfg.buffer, cfg.log.clone());
    let srv = match cfg.start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let n = r.gen_range(1, 5);
    let mut peers: Vec<RawPeer> = (0..n).filter_map(|_| RawPeer::connect(proto, srv.addr, &auth, &crypt).ok()).collect();
    let drops0 = udp_kernel_drops();
    let per = if proto == Proto::Udp { 100 / n as u64 } else { if r.gen_bool(0.1) { r.gen_range(500, 3000) } else { r.gen_range(10, 60u64) } };
    let mut want: Vec<Vec<Job>> = vec![vec![]; peers.len()];
    for k in 0..per {
        for p in 0..peers.len() {
            let j = Job { id: (i << 32) | ((p as u64) << 16) | k, delay_ms: if per < 500 && r.gen_bool(0.1) { r.gen_range(1, 8) } else { 0 }, reply_len: r.gen_range(0, 60), fail: r.gen_bool(0.1), pad: r.gen_range(0, 60) };
            if peers[p].msg(&Msg::from(custom(&j))).is_err() {
                return c.inconclusive("raw peer could not send");
            }
            want[p].push(j);
        }
    }
    for p in 0..peers.len() {
        let mut left = want[p].clone();
        let mut got = peers[p].recv(left.len(), Duration::from_secs(20));
        got.extend(peers[p].recv(1, Duration::from_millis(5)));
        let (total, answers) = (left.len(), got.len());
        for m in got {
            let at = match &m.content {
                Content::Reply(Reply::Custom(x)) => left.iter().position(|j| !j.fail && j.reply() == x.data),
                Content::Reply(Reply::Error(ReplyError::Generic(x))) => left.iter().position(|j| j.fail && j.error() == x.msg),
                _ => None,
            };
            match at {
                Some(k) => {
                    left.remove(k);
                }
                None => return c.violation("burst-wrong-reply", &format!("{:?} buffer {}: peer {} got a reply to nothing it asked: {}", proto, buffer, p, truncate(&format!("{:?}", m), 300)), json!({"case": i})),
            }
        }
        if !left.is_empty() {
            if proto == Proto::Udp && udp_kernel_drops() != drops0 {
                return c.inconclusive("the kernel dropped datagrams");
            }
            return c.violation("burst-unanswered", &format!("{:?} buffer {}: of {} requests sent at once, {} were answered", proto, buffer, total, answers), json!({"case": i}));
        }
    }
    let ran = log.snapshot();
    let sent: usize = want.iter().map(|w| w.len()).sum();
    if ran.len() != sent {
        c.violation("burst-executions", &format!("{:?} buffer {}: {} requests sent, {} executions", proto, buffer, sent, ran.len()), json!({"case": i}));
    }
    c.eval();
    c.count("burst_requests", sent as u64);
    c.distinct(&("burst", proto, sec.ak, sec.ck, buffer, sent));
    srv.stop();
}

fn liar_case(c: &Ctx, i: u64) {
    let mut r = c.rng("liar", i);
    let proto = if r.gen() { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(&mut r);
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let mut rt = runtime(1);
    let tcp = std::net::TcpListener::bind(loopback(0)).unwrap();
    let udp = std::net::UdpSocket::bind(loopback(0)).unwrap();
    let addr = if proto == Proto::Tcp { tcp.local_addr().unwrap() } else { udp.local_addr().unwrap() };
    let (a2, b2) = (auth.clone(), crypt.clone());
    let mut client = match rt.block_on(async move { connect(proto, addr, &a2, &b2).await }) {
        Ok(x) => x,
        Err(_) => return c.inconclusive("client did not connect"),
    };
    let sock = match proto {
        Proto::Tcp => {
            let (s, _) = match tcp.accept() { Ok(x) => x, Err(_) => return c.inconclusive("accept") };
            let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
            RawSock::Tcp(s)
        }
        Proto::Udp => {
            let _ = udp.set_read_timeout(Some(Duration::from_millis(20)));
            RawSock::Udp(udp, loopback(1))
        }
    };
    let size = if proto == Proto::Tcp { 1500 } else { 508 };
    let (inb, out) = crate::wire::ends(size, Duration::from_secs(300), auth.clone(), crypt.clone(), false);
    let mut peer = RawPeer { inb, out, sock, auth: auth.clone(), de: Deframe::new() };
    let nasks = r.gen_range(2, 6);
    let seed: u64 = r.gen();
    let faker = std::thread::spawn(move || -> Vec<Vec<u8>> {
        use rand::SeedableRng;
        let mut r = StdRng::seed_from_u64(seed);
        let mut seen: Vec<(Header, Job)> = vec![];
        let mut plan = vec![];
        for _ in 0..nasks {
            let m = match peer.recv(1, Duration::from_secs(20)).pop() { Some(m) => m, None => break };
            let job = match &m.content {
                Content::Request(Request::Custom(x)) => match Job::decode(&x.data) { Some(j) => j, None => break },
                _ => break,
            };
            let h = m.header.clone();
            let lie = || Reply::Custom(reply::CustomArgs::from(b"a lie".to_vec()));
            let mut did = vec![];
            for _ in 0..r.gen_range(0, 6) {
                let k = r.gen_range(0, 8);
                did.push(k);
                let _ = match k {
                    0 => peer.msg(&Msg::from(lie())),
                    1 => peer.msg(&Msg::new(Content::Reply(lie()), Some(Header::with_id(h.id ^ (1 << r.gen_range(0, 32)))))),
                    2 => {
                        // a request that claims to belong to the ask
                        let mut m = Msg::from(Request::Heartbeat);
                        m.parent_header = Some(h.clone());
                        peer.msg(&m)
                    }
                    3 => {
                        // the message id (rather than the parent) is the asked one
                        let mut m = Msg::from(lie());
                        m.header = h.clone();
                        peer.msg(&m)
                    }
                    4 => match seen.choose(&mut r) {
                        // the reply to an earlier ask once more
                        Some((h, j)) => peer.msg(&Msg::new(Content::Reply(Reply::Custom(reply::CustomArgs::from(j.reply()))), Some(h.clone()))),
                        None => Ok(()),
                    },
                    5 => peer.payload(&rand_bytes(&mut r, 200)),
                    6 => match peer.sock {
                        RawSock::Udp(..) => { let b = rand_bytes(&mut r, 300); peer.bytes(&b) }
                        _ => Ok(()),
                    },
                    _ => peer.payload(&[]),
                };
            }
            plan.push(did);
            let _ = peer.msg(&Msg::new(Content::Reply(Reply::Custom(reply::CustomArgs::from(job.reply()))), Some(h.clone())));
            if r.gen_bool(0.5) {
                // and a second, different one
                let _ = peer.msg(&Msg::new(Content::Reply(lie()), Some(h.clone())));
            }
            seen.push((h, job));
        }
        plan.into_iter().map(|v| v.into_iter().map(|x| x as u8).collect()).collect()
    });
    let drops0 = udp_kernel_drops();
    client.timeout = Duration::from_secs(20);
    for k in 0..nasks {
        let j = Job { id: (i << 8) | k as u64, delay_ms: 0, reply_len: r.gen_range(0, 400), fail: false, pad: 5 };
        let res = rt.block_on(client.ask(custom(&j)));
        if let Err(AskError::Timeout) = res {
            if udp_kernel_drops() == drops0 {
                c.violation("client-lost-reply", &format!("{:?}: ask {} was answered (after unrelated messages) but timed out", proto, k), json!({"case": i}));
            }
            break;
        }
        if let Some(e) = judge(&Op::Ask(j), &res) {
            c.violation("client-took-lie", &format!("{:?}: ask {} resolved with something else: {}", proto, k, e), json!({"case": i}));
            break;
        }
    }
    rt.shutdown_timeout(Duration::from_millis(100));
    if let Ok(plan) = faker.join() {
        c.eval();
        c.count("lies_told", plan.iter().map(|p| p.len() as u64).sum());
        c.distinct(&("liar", proto, plan));
    }
}

/// A server that does not read for a while: asks end at their timeout even
/// while they wait for room, and are answered once it reads again, however
/// long they are willing to wait.
fn deaf_case(c: &Ctx, i: u64, stall: &Stall) {
    let mut r = c.rng("deaf", i);
    let mut sec = Sec::random(&mut r);
    if r.gen_bool(0.5) {
        sec.ck = CryptKind::Noop;
        sec.ak = AuthKind::Noop;
    }
    let (auth, crypt) = (sec.auth(), sec.crypt());
    let mut rt = runtime(2);
    let l = std::net::TcpListener::bind(loopback(0)).unwrap();
    let addr = l.local_addr().unwrap();
    let buffer = *[1usize, 2, 4].choose(&mut r).unwrap();
    let (a2, b2) = (auth.clone(), crypt.clone());
    let mut client = match rt.block_on(async move { connect_with(Proto::Tcp, addr, &a2, &b2, buffer).await }) {
        Ok(x) => x,
        Err(_) => return c.inconclusive("client did not connect"),
    };
    let s = match l.accept() { Ok(x) => x.0, Err(_) => return c.inconclusive("accept") };
    let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
    stall.reset();
    let mut blocked = 0;
    for k in 0..r.gen_range(6, 12) {
        let limit = Duration::from_millis(r.gen_range(60, 300));
        client.timeout = limit;
        let j = Job { id: k, delay_ms: 0, reply_len: 1, fail: false, pad: r.gen_range(800_000, 1_800_000) };
        let t = Instant::now();
        let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(15), client.ask(custom(&j))).await });
        let took = t.elapsed();
        let w = || json!({"case": i, "ask": k, "buffer": buffer, "timeout_ms": limit.as_millis() as u64, "took_ms": took.as_millis() as u64});
        match res {
            Err(_) if stall.worst_ms() < 1000 => return c.violation("ask-outlives-timeout", &format!("at a server that does not read, ask {} with a timeout of {:?} had not ended after {:?} (queue of {})", k, limit, took, buffer), w()),
            Ok(Err(AskError::Timeout)) => {
                if took < limit {
                    return c.violation("ask-gives-up-early", &format!("an ask with a timeout of {:?} timed out after {:?}", limit, took), w());
                }
                if took > limit + Duration::from_secs(4) && stall.worst_ms() < 500 {
                    return c.violation("ask-outlives-timeout", &format!("at a server that does not read, ask {} with a timeout of {:?} ended only after {:?}", k, limit, took), w());
                }
                blocked += 1;
            }
            Ok(x) => return c.violation("deaf-answered", &format!("a server that never read a byte answered: {:?}", x.map(|_| ())), w()),
            Err(_) => return c.inconclusive("the machine stalled"),
        }
    }
    let (inb, out) = crate::wire::ends(1500, Duration::from_secs(300), auth.clone(), crypt.clone(), false);
    let mut peer = RawPeer { inb, out, sock: RawSock::Tcp(s), auth: auth.clone(), de: Deframe::new() };
    let last = Job { id: 0xdeaf, delay_ms: 0, reply_len: r.gen_range(1, 300), fail: false, pad: 3 };
    let l2 = last.clone();
    let server = std::thread::spawn(move || {
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(60) {
            for m in peer.recv(1, Duration::from_secs(5)) {
                if let Content::Request(Request::Custom(x)) = &m.content {
                    if Job::decode(&x.data).map(|j| j.id) == Some(l2.id) {
                        let _ = peer.msg(&Msg::new(Content::Reply(Reply::Custom(reply::CustomArgs::from(l2.reply()))), Some(m.header.clone())));
                        std::thread::sleep(Duration::from_millis(200));
                        return true;
                    }
                }
            }
        }
        false
    });
    client.timeout = *[Duration::from_secs(60), Duration::from_secs(10_000_000_000), Duration::from_secs(u64::max_value()), Duration::new(u64::max_value(), 999_999_999)].choose(&mut r).unwrap();
    let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), client.ask(custom(&last))).await });
    match res {
        Err(_) => c.violation("unanswered-after-deafness", "an ask made while the server reads again was not answered", json!({"case": i, "buffer": buffer})),
        Ok(res) => {
            if let Some(e) = judge(&Op::Ask(last), &res) {
                c.violation("unanswered-after-deafness", &format!("an ask (timeout {:?}) made while the server reads again: {}", client.timeout, e), json!({"case": i, "buffer": buffer}));
            }
        }
    }
    let _ = server.join();
    rt.shutdown_timeout(Duration::from_millis(100));
    c.eval();
    c.count("asks_of_a_deaf_server", blocked);
    c.distinct(&("deaf", sec.ak, sec.ck, buffer, blocked));
}

// ---------------------------------------------------------------- C09
pub fn c09(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(150, 3000), Duration::from_secs(ctx.pick(60, 300)), move |i| c09_streams(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(16, 200), Duration::from_secs(ctx.pick(60, 200)), move |i| c09_cuts(&c, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(16, 200), Duration::from_secs(ctx.pick(60, 200)), move |i| c09_tells(&c, i));
    ctx.report_panics("messages travel over TCP");
    ctx.finish(
        "pipelined messages (1 B - 100 KB) in both directions at once over a TCP stream wire, direct or through a \
         proxy that re-cuts and lumps the bytes; every cut offset of short packet streams; bursts of tells through \
         a real client and server; distinct by (security, split mode, message sizes / cut offset)",
        100,
        &["the kernel may merge pieces again; the proxy's pieces are counted, not those seen by the reader"],
    )
}

async fn tcp_exchange(
    c: &Ctx,
    desc: &str,
    a: std::net::TcpStream,
    b: std::net::TcpStream,
    s: &crate::wire::Setup,
    to_b: Vec<Vec<u8>>,
    to_a: Vec<Vec<u8>>,
    case: u64,
) -> bool {
    use tokio::net::TcpStream as T;
    let wire = || Wire::new(1500, Duration::from_secs(600), s.auth(), s.crypt());
    let _ = (a.set_nonblocking(true), b.set_nonblocking(true));
    let pa = a.peer_addr().unwrap_or(loopback(1));
    let pb = b.peer_addr().unwrap_or(loopback(1));
    let (a, b) = match (T::from_std(a), T::from_std(b)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return false,
    };
    let wa = TcpStreamWire::new(wire(), a, pa);
    let wb = TcpStreamWire::new(wire(), b, pb);
    macro_rules! go {
        ($a:expr, $b:expr) => {{
            let (mut ra, mut xa) = $a;
            let (mut rb, mut xb) = $b;
            let tb = to_b.clone();
            let ta = to_a.clone();
            let send_a = async move {
                for m in &tb {
                    if xa.write(m).await.is_err() {
                        return (false, Some(xa));
                    }
                }
                (true, Some(xa))
            };
            let send_b = async move {
                for m in &ta {
                    if xb.write(m).await.is_err() {
                        return (false, Some(xb));
                    }
                }
                (true, Some(xb))
            };
            macro_rules! drain {
                ($r:expr, $want:expr, $peer:expr) => {
                    async {
                        let mut k = 0;
                        while k < $want.len() {
                            match tokio::time::timeout(Duration::from_secs(30), $r.read()).await {
                                Err(_) => return Err(("stream-message-lost", format!("message {} of {} did not arrive", k, $want.len()))),
                                Ok(Err(e)) => return Err(("stream-read-error", format!("reading message {} of {} failed: {}", k, $want.len(), e))),
                                Ok(Ok((None, _))) => {}
                                Ok(Ok((Some(d), from))) => {
                                    if d != $want[k] {
                                        return Err(("stream-wrong-message", format!("message {} of {} differs ({} bytes instead of {})", k, $want.len(), d.len(), $want[k].len())));
                                    }
                                    if from != $peer {
                                        return Err(("stream-wrong-peer", format!("{} instead of {}", from, $peer)));
                                    }
                                    k += 1;
                                }
                            }
                        }
                        Ok(())
                    }
                };
            }
            let (sa, sb, da, db) = tokio::join!(send_a, send_b, drain!(ra, to_a, pa), drain!(rb, to_b, pb));
            for x in vec![da, db] {
                if let Err((sig, m)) = x {
                    c.violation(sig, &format!("{}: {}", desc, m), json!({"case": case}));
                    return false;
                }
            }
            if !sa.0 || !sb.0 {
                c.violation("stream-write-error", &format!("{}: writing to an open stream failed", desc), json!({"case": case}));
                return false;
            }
            // the other side goes away: a read must end, with an error
            drop(sa.1);
            drop(ra);
            for _ in 0..3 {
                match tokio::time::timeout(Duration::from_secs(20), rb.read()).await {
                    Ok(Err(_)) => return true,
                    Ok(Ok((None, _))) => continue,
                    Ok(Ok((Some(d), _))) => {
                        c.violation("stream-extra-message", &format!("{}: {} bytes delivered that were never sent", desc, d.len()), json!({"case": case}));
                        return false;
                    }
                    Err(_) => {
                        c.violation("stream-end-unnoticed", &format!("{}: the peer closed but reading goes on waiting", desc), json!({"case": case}));
                        return false;
                    }
                }
            }
            c.violation("stream-end-unnoticed", &format!("{}: the peer closed but reads keep succeeding with nothing", desc), json!({"case": case}));
            false
        }};
    }
    if s.arc {
        go!(wa.arc_split(), wb.arc_split())
    } else {
        go!(wa.clone_split(), wb.clone_split())
    }
}

fn c09_streams(c: &Ctx, i: u64) {
    let mut r = c.rng("streams", i);
    let mut s = crate::wire::Setup::random(&mut r);
    s.cache = false;
    let l = std::net::TcpListener::bind(loopback(0)).unwrap();
    let proxied = r.gen_bool(0.8);
    let proxy = if proxied { TcpProxy::start(l.local_addr().unwrap(), r.gen()).ok() } else { None };
    let target = proxy.as_ref().map(|p| p.addr).unwrap_or(l.local_addr().unwrap());
    let a = match std::net::TcpStream::connect(target) { Ok(x) => x, Err(_) => return c.inconclusive("connect") };
    let b = match l.accept() { Ok((x, _)) => x, Err(_) => return c.inconclusive("accept") };
    let mut side = |r: &mut StdRng| -> Vec<Vec<u8>> {
        let n = r.gen_range(0, 40);
        let mut total = 0;
        let mut v = vec![];
        for _ in 0..n {
            let k = match r.gen_range(0, 12) {
                0 => r.gen_range(1, 100_000),
                1..=3 => r.gen_range(1, 6000),
                _ => r.gen_range(1, 400),
            };
            total += k;
            if total > 150_000 {
                break;
            }
            v.push(payload(r, k));
        }
        v
    };
    let (to_b, to_a) = (side(&mut r), side(&mut r));
    let sizes: Vec<usize> = to_b.iter().chain(&to_a).map(|x| x.len()).collect();
    let desc = format!("{} {}", s.desc(), if proxied { "re-cut" } else { "direct" });
    let mut rt = client_runtime(2);
    let n = sizes.len();
    let ok = rt.block_on(tcp_exchange(c, &desc, a, b, &s, to_b, to_a, i));
    rt.shutdown_timeout(Duration::from_millis(50));
    c.eval();
    if ok {
        c.count("stream_messages", n as u64);
        c.distinct(&(desc.clone(), &sizes));
        c.sample(json!({"case": i, "config": desc, "sizes": sizes}));
    }
    if let Some(p) = proxy {
        c.count("tcp_pieces", p.pieces.load(Ordering::Relaxed));
    }
}

/// Every offset of a short stream of packets as the place where it is cut.
fn c09_cuts(c: &Ctx, i: u64) {
    let mut r = c.rng("cuts", i);
    let mut s = crate::wire::Setup::random(&mut r);
    s.cache = false;
    let l = std::net::TcpListener::bind(loopback(0)).unwrap();
    let mut a = match std::net::TcpStream::connect(l.local_addr().unwrap()) { Ok(x) => x, Err(_) => return };
    let b = match l.accept() { Ok((x, _)) => x, Err(_) => return };
    let _ = a.set_nodelay(true);
    let (_, mut out) = crate::wire::ends(1500, Duration::from_secs(600), s.auth(), s.crypt(), true);
    let msgs: Vec<Vec<u8>> = (0..r.gen_range(2, 4)).map(|_| { let n = if r.gen_bool(0.3) { 2000 } else { r.gen_range(1, 120) }; payload(&mut r, n) }).collect();
    let mut rt = runtime(1);
    let (tx, rx) = std::sync::mpsc::channel();
    let wire = Wire::new(1500, Duration::from_secs(600), s.auth(), s.crypt());
    let _ = b.set_nonblocking(true);
    let pb = b.peer_addr().unwrap();
    rt.handle().clone().spawn(async move {
        let b = tokio::net::TcpStream::from_std(b).unwrap();
        let (mut rd, _wr) = TcpStreamWire::new(wire, b, pb).arc_split();
        loop {
            let x = rd.read().await;
            let end = matches!(x, Err(over_there::core::transport::InboundWireError::IO(_)));
            if tx.send(x.map(|y| y.0).map_err(|e| e.to_string())).is_err() || end {
                break;
            }
        }
    });
    use std::io::Write;
    // Where one packet ends first (sizes vary a little with the nonces), then the rest
    let mut probe = 0;
    let mut near = vec![];
    for m in &msgs {
        for p in out(m).unwrap_or_default() {
            probe += p.len();
            near.extend(probe.saturating_sub(24)..probe + 8);
        }
    }
    let mut rest: Vec<usize> = (0..probe).collect();
    near.shuffle(&mut r);
    rest.shuffle(&mut r);
    let t0 = Instant::now();
    let mut tried = 0;
    'cuts: for off in near.into_iter().chain(rest).filter(|&x| x < probe).collect::<Vec<_>>() {
        if t0.elapsed() > Duration::from_secs(12) || c.done() {
            break;
        }
        let mut bytes = vec![];
        for m in &msgs {
            for p in out(m).unwrap_or_default() {
                bytes.extend(p);
            }
        }
        let off = off.min(bytes.len());
        let _ = a.write_all(&bytes[..off]);
        std::thread::sleep(Duration::from_micros(1200));
        let second = if r.gen_bool(0.3) { r.gen_range(off, bytes.len() + 1) } else { bytes.len() };
        let _ = a.write_all(&bytes[off..second]);
        if second < bytes.len() {
            std::thread::sleep(Duration::from_micros(1200));
            let _ = a.write_all(&bytes[second..]);
        }
        tried += 1;
        let mut k = 0;
        while k < msgs.len() {
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok(Ok(None)) => {}
                Ok(Ok(Some(d))) if d == msgs[k] => k += 1,
                other => {
                    c.violation(
                        "cut-stream",
                        &format!("{}: packets cut at byte {} of {}: message {} of {}: {}", s.desc(), off, bytes.len(), k, msgs.len(), truncate(&format!("{:?}", other), 200)),
                        json!({"case": i, "offset": off, "second_cut": second}),
                    );
                    break 'cuts;
                }
            }
        }
        c.eval();
        c.distinct(&("cut", s.ak, s.ck, probe, off));
    }
    c.count("cut_offsets", tried);
    drop(a);
    rt.shutdown_timeout(Duration::from_millis(50));
}

/// A burst of tells (and two big asks) through a real client and server.
fn c09_tells(c: &Ctx, i: u64) {
    let mut r = c.rng("tells", i);
    let sec = Sec::random(&mut r);
    let mut cfg = SrvCfg::new(Proto::Tcp, sec.auth(), sec.crypt());
    let buffer = *[1usize, 2, 10, 1000].choose(&mut r).unwrap();
    cfg.buffer = buffer;
    let slow = r.gen_bool(0.5);
    let log = cfg.log.clone();
    let srv = match cfg.start() { Ok(s) => s, Err(_) => return c.inconclusive("server did not start") };
    let proxy = TcpProxy::start(srv.addr, r.gen()).ok();
    let target = if r.gen_bool(0.7) { proxy.as_ref().unwrap().addr } else { srv.addr };
    let jobs: Vec<Job> = (0..r.gen_range(20, 150))
        .map(|k| Job { id: (i << 16) | k, delay_ms: if slow && r.gen_bool(0.2) { r.gen_range(1, 6) } else { 0 }, reply_len: r.gen_range(0, 50), fail: false, pad: if r.gen_bool(0.1) { r.gen_range(0, 3000) } else { r.gen_range(0, 300) } })
        .collect();
    let big = Job { id: (i << 16) | 0xffff, delay_ms: 0, reply_len: r.gen_range(1000, 60_000), fail: false, pad: r.gen_range(1000, 60_000) };
    let mut rt = client_runtime(2);
    let (a, b) = (sec.auth(), sec.crypt());
    let j2 = jobs.clone();
    let res = rt.block_on(async move {
        let mut cl = connect_with(Proto::Tcp, target, &a, &b, buffer).await.map_err(|e| e.to_string())?;
        cl.timeout = Duration::from_secs(60);
        for j in &j2 {
            cl.tell(custom(j)).await.map_err(|e| format!("tell: {:?}", e))?;
        }
        let res = cl.ask(custom(&big)).await;
        if let Some(e) = judge(&Op::Ask(big), &res) {
            return Err(format!("big ask after {} tells: {}", j2.len(), e));
        }
        Ok(())
    });
    let got = log.snapshot();
    let mut want: Vec<u64> = jobs.iter().map(|j| j.id).collect();
    want.push(big.id);
    if let Err(e) = res {
        c.violation("tell-burst-ask", &e, json!({"case": i}));
    } else if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        c.violation("tell-burst", &format!("{} requests sent on one connection, {} ran; first difference at {}", want.len(), got.len(), k), json!({"case": i, "executed": got}));
    }
    c.eval();
    c.count("tells", jobs.len() as u64);
    c.distinct(&("tells", sec.ak, sec.ck, jobs.len(), buffer, slow));
    rt.shutdown_timeout(Duration::from_millis(50));
    srv.stop();
}
