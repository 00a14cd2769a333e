//! C24: servers listen where they say, clients connect where they can, and
//! both notice when the other is gone.
use crate::common::*;
use crate::kinds::*;
use crate::net::{custom, Sec};
use crate::rig::*;
use over_there::core::{AskError, ClientBuilder, ConnectedClient, Content, Header, Msg, Reply, Request, ServerBuilder, Transport};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::net::{SocketAddr, TcpListener, UdpSocket};
use std::time::{Duration, Instant};

const MANY: Duration = Duration::from_secs(20);

fn host(v6: bool) -> std::net::IpAddr {
    if v6 { std::net::Ipv6Addr::LOCALHOST.into() } else { std::net::Ipv4Addr::LOCALHOST.into() }
}
enum Held {
    Tcp(TcpListener),
    Udp(UdpSocket),
}
impl Held {
    fn bind(proto: Proto, a: SocketAddr) -> std::io::Result<Held> {
        Ok(match proto {
            Proto::Tcp => Held::Tcp(TcpListener::bind(a)?),
            Proto::Udp => Held::Udp(UdpSocket::bind(a)?),
        })
    }
    fn addr(&self) -> SocketAddr {
        match self {
            Held::Tcp(x) => x.local_addr().unwrap(),
            Held::Udp(x) => x.local_addr().unwrap(),
        }
    }
}

async fn connect_any(proto: Proto, v: Vec<SocketAddr>, s: &Sec) -> std::io::Result<ConnectedClient> {
    ClientBuilder::default()
        .authenticator(s.auth())
        .bicrypter(s.crypt())
        .transport(match proto {
            Proto::Tcp => Transport::Tcp(v),
            Proto::Udp => Transport::Udp(v),
        })
        .build()
        .expect("client")
        .connect()
        .await
}

type Bad = (&'static str, String);
macro_rules! bad {
    ($c:expr, $($x:tt)*) => { return Err(($c, format!($($x)*))) };
}

fn answered(rt: &mut tokio::runtime::Runtime, cl: &mut ConnectedClient, id: u64) -> Result<(), String> {
    answered_sized(rt, cl, id, 700, 10)
}
fn answered_sized(rt: &mut tokio::runtime::Runtime, cl: &mut ConnectedClient, id: u64, reply_len: u32, pad: u32) -> Result<(), String> {
    let j = Job { id, delay_ms: 0, reply_len, fail: false, pad };
    let mut last = String::new();
    for _ in 0..3 {
        cl.timeout = Duration::from_secs(6);
        match rt.block_on(cl.ask(custom(&j))) {
            Ok(Reply::Custom(a)) if a.data == j.reply() => return Ok(()),
            Ok(x) => return Err(format!("the reply {:?}", x)),
            Err(e) => last = format!("{:?}", e),
        }
    }
    Err(last)
}

/// Which address of a list a server takes.
fn listening(c: &Ctx, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let proto = if r.gen() { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(r);
    let mut held = vec![];
    let mut list = vec![];
    let mut expect: Option<SocketAddr> = None;
    let mut rest = vec![];
    // some with nothing to be had but at the end
    let long = r.gen_bool(0.1);
    let n = if long { r.gen_range(8, 40) } else { r.gen_range(0, 7) };
    for k in 0..n {
        let v6 = r.gen_bool(0.4);
        let any = SocketAddr::new(host(v6), 0);
        match if long && k + 1 < n { r.gen_range(0, 3) } else { r.gen_range(0, 4) } {
            0 | 1 => {
                let h = Held::bind(proto, any).map_err(|_| ("skip", String::new()))?;
                list.push(h.addr());
                held.push(h);
            }
            2 => {
                // not an address of this machine
                let a: SocketAddr = if v6 { "[2001:db8::1]:0" } else { "192.0.2.1:0" }.parse().unwrap();
                if Held::bind(proto, a).is_ok() {
                    return Err(("skip", String::new()));
                }
                list.push(a);
            }
            _ => {
                let a = if r.gen() { any } else { Held::bind(proto, any).map_err(|_| ("skip", String::new()))?.addr() };
                list.push(a);
                if expect.is_none() {
                    expect = Some(a);
                } else {
                    rest.push(a);
                }
            }
        }
    }
    let cloneable = proto == Proto::Tcp || r.gen();
    trace.push(format!("{:?} {:?} -> {:?} cloneable {}", proto, list, expect, cloneable));
    let mut cfg = SrvCfg::new(proto, sec.auth(), sec.crypt());
    cfg.addrs = list.clone();
    cfg.cloneable = cloneable;
    c.distinct(&(proto, list.len(), expect.map(|e| list.iter().position(|x| *x == e)), list.iter().map(|x| (x.is_ipv6(), x.port() == 0)).collect::<Vec<_>>()));
    if list.is_empty() {
        let mut rt = runtime(1);
        let res = rt.block_on(async {
            ServerBuilder::default()
                .authenticator(sec.auth())
                .bicrypter(sec.crypt())
                .transport(if proto == Proto::Tcp { Transport::Tcp(vec![]) } else { Transport::Udp(vec![]) })
                .build()
                .expect("server")
                .cloneable_listen()
                .await
        });
        rt.shutdown_timeout(Duration::from_millis(50));
        if res.is_ok() {
            bad!("listening-nowhere", "a server without any address started");
        }
        return Ok(());
    }
    let srv = match (cfg.start(), expect) {
        (Err(_), None) => {
            c.count("lists_refused", 1);
            return Ok(());
        }
        (Ok(s), None) => bad!("listening-nowhere", "with nothing bindable in {:?} the server says it listens on {}", list, s.addr),
        (Err(e), Some(a)) => bad!("not-listening", "{} of {:?} is free, but starting failed: {}", a, list, e),
        (Ok(s), Some(_)) => s,
    };
    c.count("lists_served", 1);
    let want = expect.unwrap();
    let ok = srv.addr.ip() == want.ip() && srv.addr.port() != 0 && (want.port() == 0 || want.port() == srv.addr.port());
    if !ok {
        bad!("address", "of {:?} the first free one is {}, the server says {}", list, want, srv.addr);
    }
    // what it says is where it is, and nothing else is taken
    if Held::bind(proto, srv.addr).is_ok() {
        bad!("address", "the server says it listens on {}, but that is free", srv.addr);
    }
    for a in rest.iter().filter(|a| a.port() != 0 && **a != srv.addr) {
        if Held::bind(proto, *a).is_err() {
            bad!("address", "listening on {} of {:?}, {} is taken as well", srv.addr, list, a);
        }
    }
    let mut rt = runtime(1);
    let mut cl = rt.block_on(connect_any(proto, vec![srv.addr], &sec)).map_err(|e| ("connect", format!("{} after listening on it: {}", srv.addr, e)))?;
    if cl.remote_addr() != srv.addr {
        bad!("address", "connected to {}, the client says {}", srv.addr, cl.remote_addr());
    }
    if let Err(e) = answered(&mut rt, &mut cl, 1) {
        bad!("unanswered", "at {}: {}", srv.addr, e);
    }
    rt.shutdown_timeout(Duration::from_millis(50));
    // and once it ended, the address is free again
    let a = srv.addr;
    srv.stop();
    if !eventually(MANY, || match proto {
        // connections that linger are no listener
        Proto::Tcp => std::net::TcpStream::connect(a).is_err(),
        Proto::Udp => UdpSocket::bind(a).is_ok(),
    }) {
        bad!("still-bound", "the server on {} ended with its runtime, but the address is not free", a);
    }
    Ok(())
}

/// Which address of a list a client takes.
fn connecting(c: &Ctx, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let sec = Sec::random(r);
    let mut servers = vec![];
    let mut list = vec![];
    let mut want = None;
    let long = r.gen_bool(0.1);
    let n = if long { r.gen_range(8, 40) } else { r.gen_range(0, 6) };
    for k in 0..n {
        let v6 = r.gen_bool(0.4);
        if if long { k + 1 < n } else { r.gen_bool(0.6) } {
            // nobody listens there
            list.push(Held::bind(Proto::Tcp, SocketAddr::new(host(v6), 0)).map_err(|_| ("skip", String::new()))?.addr());
        } else {
            let mut cfg = SrvCfg::new(Proto::Tcp, sec.auth(), sec.crypt());
            cfg.addr = SocketAddr::new(host(v6), 0);
            cfg.threads = 1;
            let s = cfg.start().map_err(|e| ("not-listening", e.to_string()))?;
            list.push(s.addr);
            want = want.or(Some(servers.len()));
            servers.push(s);
        }
    }
    trace.push(format!("{:?}, servers at {:?}", list, servers.iter().map(|s| s.addr).collect::<Vec<_>>()));
    c.distinct(&("connect", list.len(), want, servers.len(), list.iter().map(|x| x.is_ipv6()).collect::<Vec<_>>()));
    let mut rt = runtime(1);
    let res = rt.block_on(connect_any(Proto::Tcp, list.clone(), &sec));
    let mut cl = match (res, want) {
        (Err(_), None) => {
            c.count("connects_refused", 1);
            return Ok(());
        }
        (Ok(x), None) => bad!("connected-nowhere", "nobody listens at {:?}, but the client says it is connected to {}", list, x.remote_addr()),
        (Err(e), Some(k)) => bad!("connect", "{} of {:?} listens, but connecting failed: {}", servers[k].addr, list, e),
        (Ok(x), Some(_)) => x,
    };
    c.count("connects", 1);
    let s = &servers[want.unwrap()];
    if cl.remote_addr() != s.addr {
        bad!("address", "of {:?} the first that listens is {}, the client says {}", list, s.addr, cl.remote_addr());
    }
    if let Err(e) = answered(&mut rt, &mut cl, 5) {
        bad!("unanswered", "at {}: {}", s.addr, e);
    }
    for (k, x) in servers.iter().enumerate() {
        let n = x.log.snapshot().len();
        if (n > 0) != (Some(k) == want) {
            bad!("address", "the request to {} ran {} times at {}", s.addr, n, x.addr);
        }
    }
    rt.shutdown_timeout(Duration::from_millis(50));
    Ok(())
}

/// A server on every address of the machine, or at an IPv4 address named the
/// IPv6 way: clients of either family get answers of any size.
fn stacks(c: &Ctx, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let proto = if r.gen() { Proto::Tcp } else { Proto::Udp };
    let sec = Sec::random(r);
    let mut cfg = SrvCfg::new(proto, sec.auth(), sec.crypt());
    cfg.cloneable = proto == Proto::Tcp || r.gen();
    let shape = r.gen_range(0, 3);
    let here: SocketAddr = ["[::]:0", "0.0.0.0:0", "[::ffff:127.0.0.1]:0"][shape].parse().unwrap();
    cfg.addr = here;
    let srv = match cfg.start() {
        Ok(s) => s,
        Err(_) if shape == 2 => return Err(("skip", String::new())),
        Err(e) => bad!("not-listening", "{}: {}", here, e),
    };
    let port = srv.addr.port();
    let v4 = SocketAddr::new(host(false), port);
    let v6 = SocketAddr::new(host(true), port);
    let mapped: SocketAddr = format!("[::ffff:127.0.0.1]:{}", port).parse().unwrap();
    // those the operating system itself gets to such a listener
    let mut at: Vec<SocketAddr> = match shape {
        0 => vec![v4, v6],
        _ => vec![v4],
    };
    if r.gen_bool(0.5) {
        at.push(mapped);
    }
    at.extend(at.clone());
    at.shuffle(r);
    at.truncate(r.gen_range(1, 5));
    trace.push(format!("{:?} server at {} clients at {:?}", proto, srv.addr, at));
    let mut rt = runtime(1);
    let mut cls = vec![];
    for a in &at {
        cls.push((*a, rt.block_on(connect_any(proto, vec![*a], &sec)).map_err(|e| ("connect", format!("{} of a server at {}: {}", a, srv.addr, e)))?));
    }
    for k in 0..r.gen_range(3, 10) {
        let i = r.gen_range(0, cls.len());
        let reply = *[0u32, 200, 330, 400, 480, 600, 900, 1100, 1300, 3000, 9000].choose(r).unwrap() + r.gen_range(0, 60);
        let pad = *[0u32, 100, 300, 900, 1200, 4000].choose(r).unwrap() + r.gen_range(0, 60);
        let (a, cl) = &mut cls[i];
        c.count("asked_across_families", 1);
        c.distinct(&("stacks", proto, shape, *a == mapped, a.is_ipv6(), reply / 200, pad / 300));
        if let Err(e) = answered_sized(&mut rt, cl, k, reply, pad) {
            bad!("unanswered", "a client at {} of a server at {} ({:?}), request {} bytes, reply {}: {}", a, srv.addr, proto, pad, reply, e);
        }
    }
    rt.shutdown_timeout(Duration::from_millis(50));
    Ok(())
}

/// Replies count only if they come from the server's address.
fn strangers(c: &Ctx, r: &mut StdRng, _trace: &mut Vec<String>) -> Result<(), Bad> {
    let v6 = r.gen_bool(0.3);
    let sec = Sec { ak: AuthKind::Noop, ck: CryptKind::Noop, akey: vec![], ckey: [0; 64] };
    let us = UdpSocket::bind(SocketAddr::new(host(v6), 0)).map_err(|_| ("skip", String::new()))?;
    let stranger = UdpSocket::bind(SocketAddr::new(host(v6), 0)).map_err(|_| ("skip", String::new()))?;
    us.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let mut rt = runtime(1);
    let mut cl = rt.block_on(connect_any(Proto::Udp, vec![us.local_addr().unwrap()], &sec)).map_err(|e| ("connect", e.to_string()))?;
    cl.timeout = Duration::from_secs(4);
    let task = rt.spawn(async move { cl.ask(Request::Version).await });
    let mut buf = [0u8; 65_536];
    let (n, from) = us.recv_from(&mut buf).map_err(|_| ("skip", String::new()))?;
    let (mut inb, mut out) = crate::wire::ends(508, Duration::from_secs(100), sec.auth(), sec.crypt(), false);
    let q = match (inb)(&buf[..n]).ok().and_then(|x| x).and_then(|d| Msg::from_slice(&d).ok()) {
        Some(m) => m,
        None => return Err(("skip", String::new())),
    };
    let mut say = |s: &UdpSocket, text: &str| {
        let m = Msg::new(Content::from(Reply::Version(over_there::core::reply::VersionArgs { version: text.to_string() })), Some(Header::with_id(q.header.id)));
        for p in (out)(&m.to_vec().unwrap()).unwrap_or_default() {
            let _ = s.send_to(&p, from);
        }
    };
    for _ in 0..r.gen_range(1, 4) {
        say(&stranger, "forged");
    }
    std::thread::sleep(Duration::from_millis(r.gen_range(1, 60)));
    say(&us, "genuine");
    let res = rt.block_on(task);
    rt.shutdown_timeout(Duration::from_millis(50));
    c.count("forged_datagrams_sent", 1);
    c.distinct(&("strangers", v6));
    match res {
        Ok(Ok(Reply::Version(v))) if v.version == "genuine" => Ok(()),
        Ok(Ok(x)) => Err(("stranger-believed", format!("a client of {} took {:?} from {}", us.local_addr().unwrap(), x, stranger.local_addr().unwrap()))),
        Ok(Err(_)) => Err(("skip", String::new())),
        Err(e) => Err(("panic", e.to_string())),
    }
}

/// The server goes away under its clients, in several ways.
fn endings(c: &Ctx, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let sec = Sec::random(r);
    let v6 = r.gen_bool(0.3);
    let mut rt = runtime(2);
    // a server of its own, or somebody who accepts and closes
    let real = r.gen();
    let mut fake = None;
    let mut srv = None;
    let addr = if real {
        let mut cfg = SrvCfg::new(Proto::Tcp, sec.auth(), sec.crypt());
        cfg.addr = SocketAddr::new(host(v6), 0);
        let s = cfg.start().map_err(|e| ("not-listening", e.to_string()))?;
        let a = s.addr;
        srv = Some(s);
        a
    } else {
        let l = TcpListener::bind(SocketAddr::new(host(v6), 0)).map_err(|_| ("skip", String::new()))?;
        let a = l.local_addr().unwrap();
        fake = Some(l);
        a
    };
    let mut waiting = rt.block_on(connect_any(Proto::Tcp, vec![addr], &sec)).map_err(|e| ("connect", e.to_string()))?;
    let mut asking = rt.block_on(connect_any(Proto::Tcp, vec![addr], &sec)).map_err(|e| ("connect", e.to_string()))?;
    if real {
        for cl in vec![&mut waiting, &mut asking] {
            if let Err(e) = answered(&mut rt, cl, 9) {
                bad!("unanswered", "at {}: {}", addr, e);
            }
        }
    }
    // one has a request under way when it happens
    asking.timeout = Duration::from_secs(3);
    let early = r.gen();
    let j = Job { id: 77, delay_ms: 20_000, reply_len: 3, fail: false, pad: 3 };
    let task = rt.spawn(async move {
        let a = if early { Some(asking.ask(custom(&j)).await) } else { None };
        tokio::time::delay_for(Duration::from_millis(600)).await;
        let t = Instant::now();
        let mut rest = vec![];
        for _ in 0..3 {
            rest.push(asking.ask(Request::Heartbeat).await);
        }
        (a, rest, t.elapsed())
    });
    std::thread::sleep(Duration::from_millis(r.gen_range(0, 80)));
    let how = r.gen_range(0, 3);
    match fake {
        Some(l) => {
            for _ in 0..2 {
                let (s, _) = l.accept().map_err(|_| ("skip", String::new()))?;
                match how {
                    0 => drop(s),
                    1 => {
                        use std::io::Write;
                        let _ = (&s).write_all(&rand_bytes(r, 30));
                    }
                    _ => {
                        use std::os::unix::io::AsRawFd;
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe {
                            libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32);
                        }
                    }
                }
            }
        }
        None => srv.take().unwrap().stop(),
    }
    trace.push(format!("real {} how {} v6 {} early {}", real, how, v6, early));
    c.distinct(&("endings", real, how, v6, early));
    c.count("servers_ended", 1);
    let t = Instant::now();
    let done = rt.block_on(async { tokio::time::timeout(MANY, waiting.wait()).await });
    match done {
        Err(_) => bad!("wait-forever", "the server at {} is gone since {:?}, but wait() does not return", addr, t.elapsed()),
        Ok(Err(e)) => bad!("panic", "wait(): {}", e),
        Ok(Ok(())) => {}
    }
    match rt.block_on(async { tokio::time::timeout(Duration::from_secs(40), task).await }) {
        Err(_) => bad!("ask-forever", "the server at {} is gone, but an ask does not return", addr),
        Ok(Err(e)) => bad!("panic", "ask(): {}", e),
        Ok(Ok((a, rest, _))) => {
            for x in a.into_iter().chain(rest) {
                match x {
                    Err(AskError::Timeout) | Err(AskError::SendFailed) | Err(AskError::CallbackLost) => {}
                    x => bad!("ask-gone", "the server is gone, but an ask gave {:?}", x),
                }
            }
        }
    }
    rt.shutdown_timeout(Duration::from_millis(50));
    Ok(())
}

/// What `listen` cannot do, it says.
fn refused(c: &Ctx, r: &mut StdRng, _trace: &mut Vec<String>) -> Result<(), Bad> {
    let sec = Sec::random(r);
    let mut rt = runtime(1);
    let a = Held::bind(Proto::Tcp, SocketAddr::new(host(false), 0)).map_err(|_| ("skip", String::new()))?.addr();
    let res = rt.block_on(async { ServerBuilder::default().authenticator(sec.auth()).bicrypter(sec.crypt()).transport(Transport::Tcp(vec![a])).build().expect("server").listen().await });
    if res.is_ok() {
        bad!("listen-tcp", "listen() over TCP did not fail, although each connection needs clones");
    }
    if std::net::TcpStream::connect(a).is_ok() {
        bad!("listen-tcp", "listen() over TCP failed but listens");
    }
    if ServerBuilder::<DynAuth, DynCrypt>::default().authenticator(sec.auth()).build().is_ok() || ClientBuilder::<DynAuth, DynCrypt>::default().bicrypter(sec.crypt()).build().is_ok() {
        bad!("builder", "a server or client without transport can be built");
    }
    // no room at all, or more than there can be, between its tasks
    for &buffer in &[0usize, usize::max_value(), usize::max_value() / 2] {
        for k in 0..3 {
            let proto = if k == 0 { Proto::Tcp } else { Proto::Udp };
            let a = Held::bind(proto, SocketAddr::new(host(false), 0)).map_err(|_| ("skip", String::new()))?.addr();
            let over = |a: SocketAddr| if k == 0 { Transport::Tcp(vec![a]) } else { Transport::Udp(vec![a]) };
            let s = ServerBuilder::default().buffer(buffer).authenticator(sec.auth()).bicrypter(sec.crypt()).transport(over(a)).build().expect("server");
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async { if k == 2 { s.listen().await } else { s.cloneable_listen().await } }).map(|_| ())));
            if !matches!(res, Ok(Err(_))) {
                bad!("buffer", "{:?}: a server with a buffer of {} {}", proto, buffer, if res.is_err() { "panicked" } else { "listens" });
            }
            if Held::bind(proto, a).is_err() {
                bad!("buffer", "{:?}: a server with a buffer of {} failed but holds its address", proto, buffer);
            }
            let cl = ClientBuilder::default().buffer(buffer).authenticator(sec.auth()).bicrypter(sec.crypt()).transport(over(a)).build().expect("client");
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async { cl.connect().await }).map(|_| ())));
            if !matches!(res, Ok(Err(_))) {
                bad!("buffer", "{:?}: a client with a buffer of {} {}", proto, buffer, if res.is_err() { "panicked" } else { "connected" });
            }
        }
    }
    rt.shutdown_timeout(Duration::from_millis(50));
    c.count("impossible_configurations", 20);
    // port lists
    use over_there::core::net;
    let ports: Vec<u16> = (0..r.gen_range(0, 50)).map(|_| r.gen()).collect();
    for h in vec![host(false), host(true)] {
        let l = net::make_addr_list(h, ports.clone());
        if l.iter().map(|x| (x.ip(), x.port())).collect::<Vec<_>>() != ports.iter().map(|p| (h, *p)).collect::<Vec<_>>() {
            bad!("list", "make_addr_list({}, {:?}) = {:?}", h, ports, l);
        }
    }
    let held: Vec<_> = (0..r.gen_range(1, 4)).filter_map(|_| Held::bind(Proto::Udp, SocketAddr::new(host(false), 0)).ok()).collect();
    let mut ports: Vec<u16> = held.iter().map(|h| h.addr().port()).collect();
    match net::udp::bind(host(false), ports.clone()) {
        Err(_) => {}
        Ok(s) => bad!("list", "bound {:?} although taken", s.local_addr()),
    }
    ports.push(0);
    match net::udp::bind(host(false), ports) {
        Ok(_) => Ok(()),
        Err(e) => Err(("list", format!("the last port is free, but {}", e))),
    }
}

/// A server told to shut down.
fn shutdown(c: &Ctx) {
    let mut r = c.rng("shutdown", 0);
    for &proto in &[Proto::Tcp, Proto::Udp] {
        let sec = Sec::random(&mut r);
        let srv = match SrvCfg::new(proto, sec.auth(), sec.crypt()).start() {
            Ok(s) => s,
            Err(_) => return c.inconclusive("server did not start"),
        };
        let mut rt = runtime(1);
        let mut cl = match rt.block_on(connect_any(proto, vec![srv.addr], &sec)) {
            Ok(x) => x,
            Err(_) => return c.inconclusive("client did not connect"),
        };
        if answered(&mut rt, &mut cl, 1).is_err() {
            return c.inconclusive("not answered");
        }
        srv.server.as_ref().unwrap().shutdown();
        std::thread::sleep(Duration::from_millis(700));
        cl.timeout = Duration::from_secs(2);
        let x = rt.block_on(cl.ask(Request::Version));
        c.eval();
        if let Ok(x) = x {
            c.violation("shutdown-keeps-serving", &format!("{:?}: 700 ms after shutdown() a request is answered with {:?}", proto, x), json!({}));
        }
        rt.shutdown_timeout(Duration::from_millis(50));
    }
}

pub fn c24(ctx: &Ctx) -> i32 {
    shutdown(ctx);
    let c = ctx.clone();
    let stall = Stall::start();
    par_cases_on(ctx, 24, ctx.pick(900, 12_000), Duration::from_secs(ctx.pick(45, 900)), move |i| {
        let go = || {
            stall.reset();
            let mut r = c.rng("addr", i);
            let mut t = vec![];
            let res = match i % 14 {
                0..=4 => listening(&c, &mut r, &mut t),
                5..=7 => connecting(&c, &mut r, &mut t),
                8 => strangers(&c, &mut r, &mut t),
                9 | 10 => endings(&c, &mut r, &mut t),
                11 => refused(&c, &mut r, &mut t),
                _ => stacks(&c, &mut r, &mut t),
            };
            (res, t)
        };
        c.eval();
        match go() {
            (Ok(()), t) => c.sample(json!({"case": i, "what": t})),
            (Err(("skip", _)), _) => c.inconclusive("no address, or a datagram was lost"),
            // somebody else may have taken an address meant to be free
            (Err((class, what)), _) => match go() {
                (Err((c2, w2)), t) if c2 == class && stall.worst_ms() < 1500 => c.violation(class, &w2, json!({"case": i, "first": what, "trace": t})),
                _ => {
                    eprintln!("case {} seen once: {} {}", i, class, what);
                    c.inconclusive("seen once only")
                }
            },
        }
    });
    ctx.report_panics("servers and clients came and went");
    ctx.finish(
        "servers given lists of taken, foreign and free addresses (IPv4 and IPv6, TCP and UDP) must take and report the first free one; clients given lists must take the first that listens; forged datagrams from other addresses; servers that end, close or reset under waiting and asking clients; distinct by shape of the list or kind of ending",
        100,
        &["who else binds ports in the sandbox meanwhile: a mismatch must repeat with newly chosen ports"],
    )
}
