//! C28: event managers carry messages between the peers they belong to.
use crate::common::*;
use crate::kinds::*;
use crate::net::{RawPeer, RawSock, Sec};
use crate::rig::*;
use over_there::core::transport::Wire;
use over_there::core::{reply, request, AddrEventManager, Content, EventManager, Msg, Reply, Request};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::collections::HashMap;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

const LONG: Duration = Duration::from_secs(20);

type Bad = (&'static str, String);
macro_rules! bad {
    ($c:expr, $($x:tt)*) => { return Err(($c, format!($($x)*))) };
}

/// What a peer wants done with its message.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Route {
    /// nothing
    Keep,
    /// an answer through the sender that came with it
    Sender,
    /// an answer to the address it came from, through the manager
    Back,
    /// a message to another peer's address
    To(u16),
    /// a message to an address nobody has
    Nobody,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Item {
    from: u16,
    k: u32,
    route: Route,
    len: u32,
}
impl Item {
    fn bytes(&self, salt: u64) -> Vec<u8> {
        let (r, t) = match self.route {
            Route::Keep => (0u8, 0),
            Route::Sender => (1, 0),
            Route::Back => (2, 0),
            Route::To(t) => (3, t),
            Route::Nobody => (4, 0),
        };
        let mut v = self.from.to_be_bytes().to_vec();
        v.extend_from_slice(&self.k.to_be_bytes());
        v.push(r);
        v.extend_from_slice(&t.to_be_bytes());
        v.extend_from_slice(&self.len.to_be_bytes());
        let n = h64(&v) ^ salt;
        v.extend(stream(n, self.len as usize));
        v
    }
    fn read(v: &[u8], salt: u64) -> Option<Item> {
        if v.len() < 13 {
            return None;
        }
        let t = u16::from_be_bytes([v[7], v[8]]);
        let it = Item {
            from: u16::from_be_bytes([v[0], v[1]]),
            k: u32::from_be_bytes([v[2], v[3], v[4], v[5]]),
            route: match v[6] {
                0 => Route::Keep,
                1 => Route::Sender,
                2 => Route::Back,
                3 => Route::To(t),
                _ => Route::Nobody,
            },
            len: u32::from_be_bytes([v[9], v[10], v[11], v[12]]),
        };
        if it.bytes(salt) == v {
            Some(it)
        } else {
            None
        }
    }
    fn ask(&self) -> Msg {
        Msg::from(Request::Custom(request::CustomArgs { data: self.bytes(1) }))
    }
    /// What arrives at the peer it is for.
    fn said(&self) -> Vec<u8> {
        Msg::from(Reply::Custom(reply::CustomArgs { data: self.bytes(2) })).to_vec().unwrap()
    }
    fn heard(m: &Msg) -> Option<Item> {
        match &m.content {
            Content::Reply(Reply::Custom(x)) => Item::read(&x.data, 2),
            _ => None,
        }
    }
}

/// What the side of the manager saw and did.
#[derive(Default)]
struct Seen {
    /// where each peer is
    at: Vec<SocketAddr>,
    got: HashMap<u16, Vec<u32>>,
    /// by whom it is for and whether it went through the manager
    said: HashMap<(u16, bool), Vec<(u16, u32)>>,
    bad: Option<Bad>,
    handled: u64,
    hold: bool,
    /// peers may be gone before they are answered
    leaving: bool,
}
type Shared = Arc<Mutex<Seen>>;

macro_rules! consume {
    ($mgr:ident, $rx:ident, $seen:ident, $slow:ident, $rng:ident, $send:expr) => {
        while let Some((msg, from, mut sender)) = $rx.recv().await {
            while $seen.lock().unwrap().hold {
                tokio::time::delay_for(Duration::from_millis(3)).await;
            }
            let it = match &msg.content {
                Content::Request(Request::Custom(x)) => Item::read(&x.data, 1),
                _ => None,
            };
            let it = match it {
                Some(x) => x,
                None => {
                    $seen.lock().unwrap().bad = Some(("garbled", format!("handed over {}", truncate(&format!("{:?}", msg), 200))));
                    continue;
                }
            };
            let dest = {
                let mut s = $seen.lock().unwrap();
                s.handled += 1;
                match s.at.get(it.from as usize) {
                    Some(a) if *a == from => {}
                    x => {
                        let x = format!("{:?} came from {}, handed over as from {}", it, x.map(|x| x.to_string()).unwrap_or_default(), from);
                        s.bad = Some(("wrong-sender", x));
                    }
                }
                s.got.entry(it.from).or_default().push(it.k);
                let to = match it.route {
                    Route::Keep | Route::Nobody => None,
                    Route::Sender => Some((it.from, false)),
                    Route::Back => Some((it.from, true)),
                    Route::To(t) => Some((t, true)),
                };
                if let Some(x) = to {
                    s.said.entry(x).or_default().push((it.from, it.k));
                }
                match it.route {
                    Route::Back => Some(from),
                    Route::To(t) => Some(s.at[t as usize]),
                    // some of these cannot even be sent to
                    Route::Nobody => Some(["127.0.0.1:1", "127.0.0.1:0", "[::1]:9", "192.0.2.1:9", "255.255.255.255:9"][it.k as usize % 5].parse().unwrap()),
                    _ => None,
                }
            };
            if it.route == Route::Sender {
                let send = $send;
                if !send(&mut sender, it.said(), from).await && !$seen.lock().unwrap().leaving {
                    $seen.lock().unwrap().bad = Some(("sender-refused", format!("the sender that came with {:?} is closed", it)));
                }
            }
            if let Some(a) = dest {
                if $mgr.send_to(it.said(), a).await.is_err() {
                    $seen.lock().unwrap().bad = Some(("send-refused", format!("send_to({}) refused", a)));
                }
            }
            if $slow && $rng.gen_bool(0.1) {
                tokio::time::delay_for(Duration::from_millis($rng.gen_range(1, 6))).await;
            }
        }
    };
}

struct Site {
    rt: tokio::runtime::Runtime,
    addr: SocketAddr,
    seen: Shared,
    sec: Sec,
    proto: Proto,
    desc: String,
    gate: Arc<AtomicBool>,
}
impl Site {
    fn start(r: &mut StdRng, proto: Proto) -> Result<Site, Bad> {
        let rt = runtime(r.gen_range(1, 5));
        let sec = Sec::random(r);
        let room = [1usize, 2, 10, 200];
        let (q_in, q_out) = (*room.choose(r).unwrap(), *room.choose(r).unwrap());
        let slow = r.gen_bool(0.4);
        let clone = r.gen();
        let seen: Shared = Default::default();
        let (s2, mut rng) = (seen.clone(), rand::SeedableRng::seed_from_u64(r.gen()));
        let rng: &mut StdRng = &mut rng;
        let mut rng = rng.clone();
        let h = rt.handle().clone();
        let (a, b) = (sec.auth(), sec.crypt());
        let desc = format!("{:?}/{:?} {:?} queues {} and {}{}{}", sec.ak, sec.ck, proto, q_in, q_out, if slow { " slow" } else { "" }, if clone { " cloneable" } else { "" });
        let gate = Arc::new(AtomicBool::new(false));
        let open = gate.clone();
        let addr;
        match proto {
            Proto::Tcp => {
                let l = TcpListener::bind(loopback(0)).map_err(|_| ("skip", String::new()))?;
                addr = l.local_addr().unwrap();
                let _ = l.set_nonblocking(true);
                let wire = Wire::new(1500, Duration::from_secs(300), a, b);
                rt.spawn(async move {
                    while !open.load(Ordering::SeqCst) {
                        tokio::time::delay_for(Duration::from_millis(1)).await;
                    }
                    let l = tokio::net::TcpListener::from_std(l).expect("listener");
                    let (tx, mut rx) = mpsc::channel(q_in);
                    let mut mgr = AddrEventManager::for_tcp_listener(h, q_out, l, wire, tx);
                    async fn say(s: &mut mpsc::Sender<Vec<u8>>, d: Vec<u8>, _: SocketAddr) -> bool {
                        s.send(d).await.is_ok()
                    }
                    consume!(mgr, rx, s2, slow, rng, say);
                });
            }
            Proto::Udp => {
                let l = UdpSocket::bind(loopback(0)).map_err(|_| ("skip", String::new()))?;
                addr = l.local_addr().unwrap();
                let _ = l.set_nonblocking(true);
                let wire = Wire::new(508, Duration::from_secs(300), a, b);
                rt.spawn(async move {
                    let l = tokio::net::UdpSocket::from_std(l).expect("socket");
                    let (tx, mut rx) = mpsc::channel(q_in);
                    let mut mgr = if clone {
                        AddrEventManager::for_udp_socket_with_cloneable_wire(h, q_out, l, wire, tx)
                    } else {
                        AddrEventManager::for_udp_socket(h, q_out, l, wire, tx)
                    };
                    async fn say(s: &mut mpsc::Sender<(Vec<u8>, SocketAddr)>, d: Vec<u8>, a: SocketAddr) -> bool {
                        s.send((d, a)).await.is_ok()
                    }
                    consume!(mgr, rx, s2, slow, rng, say);
                });
            }
        }
        Ok(Site { rt, addr, seen, sec, proto, desc, gate })
    }
    fn peer(&self) -> Result<RawPeer, Bad> {
        RawPeer::connect(self.proto, self.addr, &self.sec.auth(), &self.sec.crypt()).map_err(|_| ("skip", String::new()))
    }
    fn stop(self) {
        self.rt.shutdown_timeout(Duration::from_millis(50));
    }
    fn verdict(&self) -> Result<(), Bad> {
        match self.seen.lock().unwrap().bad.take() {
            Some(x) => Err((x.0, format!("{}: {}", self.desc, x.1))),
            None => Ok(()),
        }
    }
}

/// Many peers, every way to answer, some of them leaving.
fn routes(c: &Ctx, r: &mut StdRng) -> Result<(), Bad> {
    let proto = if r.gen_bool(0.6) { Proto::Tcp } else { Proto::Udp };
    let site = Site::start(r, proto)?;
    let res = routes_on(c, r, &site);
    site.stop();
    res
}
fn routes_on(c: &Ctx, r: &mut StdRng, site: &Site) -> Result<(), Bad> {
    let proto = site.proto;
    let n = match r.gen_range(0, 6) {
        0 if proto == Proto::Tcp => r.gen_range(20, 80),
        _ => r.gen_range(1, 8u16),
    };
    let drops0 = udp_kernel_drops();
    // all at once, or as they come
    if r.gen_bool(0.5) {
        site.gate.store(true, Ordering::SeqCst);
    }
    let mut peers = vec![];
    for _ in 0..n {
        let p = site.peer()?;
        if proto == Proto::Udp {
            // so that it has its address before anybody asks for it
            if let RawSock::Udp(s, _) = &p.sock {
                let port = s.local_addr().unwrap().port();
                site.seen.lock().unwrap().at.push(loopback(port));
            }
        } else {
            site.seen.lock().unwrap().at.push(p.local());
        }
        peers.push(p);
    }
    // everybody says hello, some want an answer to their very first message
    let first = *[Route::Keep, Route::Sender, Route::Back, Route::Back].choose(r).unwrap();
    for (i, p) in peers.iter_mut().enumerate() {
        let it = Item { from: i as u16, k: 0, route: first, len: r.gen_range(0, 300) };
        p.msg(&it.ask()).map_err(|_| ("skip", String::new()))?;
    }
    site.gate.store(true, Ordering::SeqCst);
    let lost = |what: String| -> Result<(), Bad> {
        if proto == Proto::Udp && udp_kernel_drops() != drops0 {
            Err(("skip", String::new()))
        } else {
            Err(("lost", what))
        }
    };
    if !eventually(LONG, || site.seen.lock().unwrap().handled >= n as u64) {
        return lost(format!("{}: {} peers said hello, {} were heard", site.desc, n, site.seen.lock().unwrap().handled));
    }
    site.verdict()?;
    // some leave, one way or another
    let gone: Vec<bool> = (0..n).map(|_| proto == Proto::Tcp && n > 1 && r.gen_bool(0.15)).collect();
    let mut stay: Vec<Option<RawPeer>> = peers.into_iter().map(Some).collect();
    for i in 0..n as usize {
        if gone[i] {
            let p = stay[i].take().unwrap();
            if r.gen() {
                reset(&p);
            }
            drop(p);
        }
    }
    let mut sent: Vec<u32> = vec![1; n as usize];
    let garbage = r.gen_bool(0.5);
    let (mut bytes, limit) = (0, if proto == Proto::Udp { 60_000 } else { 400_000 });
    let rounds = r.gen_range(1, 20);
    let mut held = vec![vec![]; n as usize];
    'o: for _ in 0..rounds {
        for i in 0..n {
            let p = match &mut stay[i as usize] {
                Some(p) => p,
                None => continue,
            };
            if garbage && r.gen_bool(0.2) {
                // a good packet, but no message
                let k = r.gen_range(1, 1200);
                let g = rand_bytes(r, k);
                p.payload(&g).map_err(|_| ("skip", String::new()))?;
            }
            let len = match r.gen_range(0, 10) {
                0 => r.gen_range(1000, 6000),
                1 | 2 => r.gen_range(300, 1200),
                _ => r.gen_range(0, 200),
            };
            bytes += 2 * len;
            if bytes > limit {
                break 'o;
            }
            let route = match r.gen_range(0, 7) {
                0 => Route::Keep,
                1 | 2 => Route::Sender,
                3 | 4 => Route::Back,
                5 => Route::To(r.gen_range(0, n)),
                _ => Route::Nobody,
            };
            let it = Item { from: i, k: sent[i as usize], route, len };
            p.msg(&it.ask()).map_err(|_| ("skip", String::new()))?;
            sent[i as usize] += 1;
            if r.gen_bool(0.05) {
                held[i as usize].extend(p.recv(1, Duration::from_millis(4)));
            }
        }
    }
    let total: u64 = sent.iter().map(|&x| x as u64).sum();
    // keep what they are sent flowing
    let t = Instant::now();
    while site.seen.lock().unwrap().handled < total && t.elapsed() < LONG {
        for (i, p) in stay.iter_mut().enumerate() {
            if let Some(p) = p {
                held[i].extend(p.recv(1, Duration::from_millis(1)));
            }
        }
    }
    site.verdict()?;
    let (got, said) = {
        let s = site.seen.lock().unwrap();
        (s.got.clone(), s.said.clone())
    };
    for i in 0..n {
        let mut g = got.get(&i).cloned().unwrap_or_default();
        if proto == Proto::Udp {
            g.sort();
        }
        let want: Vec<u32> = (0..sent[i as usize]).collect();
        if g != want {
            if g.len() < want.len() && g.windows(2).all(|w| w[0] < w[1]) {
                return lost(format!("{}: peer {} of {} sent {} messages, handed over were {:?}", site.desc, i, n, want.len(), g));
            }
            bad!("handed-over", "{}: peer {} of {} sent {} messages, handed over were {:?}", site.desc, i, n, want.len(), g);
        }
    }
    for i in 0..n {
        let p = match &mut stay[i as usize] {
            Some(p) => p,
            None => continue,
        };
        let none = vec![];
        let by_sender = said.get(&(i, false)).unwrap_or(&none);
        let by_addr = said.get(&(i, true)).unwrap_or(&none);
        let mut heard = std::mem::take(&mut held[i as usize]);
        let want = by_sender.len() + by_addr.len();
        if heard.len() < want {
            let more = p.recv(want - heard.len(), Duration::from_secs(12));
            heard.extend(more);
        }
        heard.extend(p.recv(1, Duration::from_millis(4)));
        let (mut s, mut a) = (vec![], vec![]);
        for m in &heard {
            let it = match Item::heard(m) {
                Some(x) => x,
                None => bad!("garbled", "{}: peer {} received {}", site.desc, i, truncate(&format!("{:?}", m), 200)),
            };
            let mine = match it.route {
                Route::Sender | Route::Back => it.from == i,
                Route::To(t) => t == i,
                _ => false,
            };
            if !mine {
                bad!("misrouted", "{}: peer {} of {} received {:?}", site.desc, i, n, it);
            }
            if it.route == Route::Sender { s.push((it.from, it.k)) } else { a.push((it.from, it.k)) }
        }
        for (x, want, how) in vec![(s, by_sender, "its sender"), (a, by_addr, "its address")] {
            let (mut x, mut w) = (x, want.clone());
            if proto == Proto::Udp {
                x.sort();
                w.sort();
            }
            if x != w {
                if x.len() < w.len() {
                    return lost(format!("{}: to peer {} of {} {} messages were said through {}, it heard {}: {:?} vs {:?}", site.desc, i, n, w.len(), how, x.len(), w, x));
                }
                bad!("said", "{}: to peer {} of {} were said through {}: {:?}, it heard {:?}", site.desc, i, n, how, w, x);
            }
            c.count("messages_routed_to_peers", w.len() as u64);
        }
    }
    site.verdict()?;
    c.count("messages_handed_over", total);
    c.count("peers_gone", gone.iter().filter(|x| **x).count() as u64);
    c.max("peers_at_once", n as u64);
    c.distinct(&(&site.desc, n, &sent, garbage, &gone));
    c.sample(json!({"config": site.desc, "peers": n, "sent": sent, "gone": gone}));
    Ok(())
}

fn linger0(fd: i32) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}
fn reset(p: &RawPeer) {
    use std::os::unix::io::AsRawFd;
    if let RawSock::Tcp(s) = &p.sock {
        linger0(s.as_raw_fd());
    }
}
/// A TCP connection from a chosen local port.
fn connect_from(port: u16, to: SocketAddr) -> std::io::Result<TcpStream> {
    use std::os::unix::io::FromRawFd;
    let sa = |p: u16| libc::sockaddr_in {
        sin_family: libc::AF_INET as u16,
        sin_port: p.to_be(),
        sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
        sin_zero: [0; 8],
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        let one: libc::c_int = 1;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const _, 4);
        let (l, t) = (sa(port), sa(to.port()));
        let n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        if libc::bind(fd, &l as *const _ as *const _, n) != 0 || libc::connect(fd, &t as *const _ as *const _, n) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(Duration::from_millis(20)))?;
        s.set_write_timeout(Some(Duration::from_secs(10)))?;
        Ok(s)
    }
}

/// A peer that resets its connection and comes back from the same address,
/// while the manager may still be busy with its first one.
fn again(c: &Ctx, r: &mut StdRng) -> Result<(), Bad> {
    let site = Site::start(r, Proto::Tcp)?;
    let res = again_on(c, r, &site);
    site.stop();
    res
}
fn again_on(c: &Ctx, r: &mut StdRng, site: &Site) -> Result<(), Bad> {
    site.gate.store(true, Ordering::SeqCst);
    let (auth, crypt) = (site.sec.auth(), site.sec.crypt());
    let s = TcpStream::connect(site.addr).map_err(|_| ("skip", String::new()))?;
    let port = s.local_addr().unwrap().port();
    let _ = s.set_nodelay(true);
    let mut p = RawPeer::over(RawSock::Tcp(s), 1500, &auth, &crypt);
    site.seen.lock().unwrap().at = vec![loopback(port), loopback(port)];
    site.seen.lock().unwrap().leaving = true;
    let busy = r.gen_bool(0.6);
    if busy {
        site.seen.lock().unwrap().hold = true;
    }
    let before = r.gen_range(1, if busy { 40 } else { 4 });
    for k in 0..before {
        let route = *[Route::Keep, Route::Keep, Route::Nobody, Route::Back, Route::Sender].choose(r).unwrap();
        p.msg(&Item { from: 0, k, route, len: 10 }.ask()).map_err(|_| ("skip", String::new()))?;
    }
    // all of it has arrived before it goes
    if !busy && !eventually(LONG, || site.seen.lock().unwrap().handled >= before as u64) {
        bad!("lost", "{}: {} messages sent, {} handed over", site.desc, before, site.seen.lock().unwrap().handled);
    }
    std::thread::sleep(Duration::from_millis(r.gen_range(0, 20)));
    if r.gen_bool(0.7) {
        reset(&p);
    }
    drop(p);
    if busy && r.gen_bool(0.5) {
        // what it said is worked on while nobody is there
        std::thread::sleep(Duration::from_millis(r.gen_range(0, 40)));
        site.seen.lock().unwrap().hold = false;
        eventually(Duration::from_millis(400), || site.seen.lock().unwrap().handled >= before as u64);
    }
    std::thread::sleep(Duration::from_micros(*[0u64, 100, 2000, 30_000].choose(r).unwrap()));
    let s = connect_from(port, site.addr).map_err(|_| ("skip", String::new()))?;
    let mut p = RawPeer::over(RawSock::Tcp(s), 1500, &auth, &crypt);
    let mut k = 0;
    let mut want = vec![];
    let mut heard = vec![];
    for part in 0..r.gen_range(2, 5) {
        for _ in 0..r.gen_range(1, 4) {
            let route = if r.gen_bool(0.8) { Route::Back } else { Route::Sender };
            p.msg(&Item { from: 1, k, route, len: r.gen_range(0, 200) }.ask()).map_err(|_| ("skip", String::new()))?;
            want.push((k, route));
            k += 1;
        }
        if part == 0 {
            std::thread::sleep(Duration::from_millis(r.gen_range(0, 30)));
            site.seen.lock().unwrap().hold = false;
        }
        // each part only once the last one is answered
        let t = Instant::now();
        while heard.len() < want.len() && t.elapsed() < Duration::from_secs(10) {
            // answers to its first connection may still arrive there
            heard.extend(p.recv(1, Duration::from_secs(1)).iter().filter_map(Item::heard).filter(|x| x.from == 1));
        }
        site.verdict()?;
        if heard.len() < want.len() {
            let s = site.seen.lock().unwrap();
            bad!("lost-on-return", "{}: a peer reset its connection and came back from the same address: it sent {} messages, {} were handed over, and it heard {:?} of the answers", site.desc, want.len(), s.got.get(&1).map(|x| x.len()).unwrap_or(0), heard.iter().map(|x| (x.k, x.route)).collect::<Vec<_>>());
        }
    }
    for route in &[Route::Back, Route::Sender] {
        let h: Vec<u32> = heard.iter().filter(|x| x.route == *route && x.from == 1).map(|x| x.k).collect();
        let w: Vec<u32> = want.iter().filter(|x| x.1 == *route).map(|x| x.0).collect();
        if h != w {
            bad!("said", "{}: a peer that came back asked for {:?} by {:?} and heard {:?}", site.desc, w, route, h);
        }
    }
    c.count("peers_that_came_back", 1);
    c.distinct(&("again", &site.desc, busy, before, want.len()));
    Ok(())
}

/// Two managers over one stream, until one of them is gone.
fn pair(c: &Ctx, r: &mut StdRng) -> Result<(), Bad> {
    let sec = Sec::random(r);
    let l = TcpListener::bind(loopback(0)).map_err(|_| ("skip", String::new()))?;
    let a = TcpStream::connect(l.local_addr().unwrap()).map_err(|_| ("skip", String::new()))?;
    let (b, _) = l.accept().map_err(|_| ("skip", String::new()))?;
    let (at_a, at_b) = (a.local_addr().unwrap(), b.local_addr().unwrap());
    let room = [1usize, 2, 10, 200];
    let (q_in, q_out) = (*room.choose(r).unwrap(), *room.choose(r).unwrap());
    let desc = format!("{:?}/{:?} pair queues {} and {}", sec.ak, sec.ck, q_in, q_out);
    let done = Arc::new(AtomicBool::new(false));
    let mut side = |s: TcpStream, from: SocketAddr, me: u16, r: &mut StdRng| {
        let rt = runtime(r.gen_range(1, 3));
        let n = r.gen_range(0, 120u32);
        let items: Vec<Item> = (0..n).map(|k| Item { from: me, k, route: Route::Keep, len: if r.gen_bool(0.1) { r.gen_range(0, 9000) } else { r.gen_range(0, 300) } }).collect();
        let junk: Vec<Option<Vec<u8>>> = (0..n).map(|_| if r.gen_bool(0.1) { let k = r.gen_range(0, 600); Some(rand_bytes(r, k)) } else { None }).collect();
        let wire = Wire::new(1500, Duration::from_secs(300), sec.auth(), sec.crypt());
        let h = rt.handle().clone();
        let _ = s.set_nonblocking(true);
        let got: Arc<Mutex<Vec<(u16, u32)>>> = Default::default();
        let wrong: Arc<Mutex<Option<Bad>>> = Default::default();
        let ended = Arc::new(AtomicBool::new(false));
        let (g2, w2, e2, i2, d2) = (got.clone(), wrong.clone(), ended.clone(), items.clone(), done.clone());
        rt.spawn(async move {
            let s = tokio::net::TcpStream::from_std(s).expect("stream");
            let (tx, mut rx) = mpsc::channel(q_in);
            let mut mgr = EventManager::for_tcp_stream(h.clone(), q_out, s, from, wire, tx);
            h.spawn(async move {
                // the sender that comes along is let go at once
                while let Some((m, at, _)) = rx.recv().await {
                    match Item::heard(&m) {
                        Some(it) => g2.lock().unwrap().push((it.from, it.k)),
                        None => *w2.lock().unwrap() = Some(("garbled", truncate(&format!("{:?}", m), 200))),
                    }
                    if at != from {
                        *w2.lock().unwrap() = Some(("wrong-sender", format!("{} instead of {}", at, from)));
                    }
                }
            });
            for (it, j) in i2.iter().zip(junk) {
                if let Some(j) = j {
                    let _ = mgr.send(j).await;
                }
                if mgr.send(it.said()).await.is_err() {
                    break;
                }
            }
            while !d2.load(Ordering::Relaxed) {
                tokio::time::delay_for(Duration::from_millis(3)).await;
            }
            if mgr.wait().await.is_ok() {
                e2.store(true, Ordering::Relaxed);
            }
        });
        (rt, items, got, wrong, ended)
    };
    let (rt_a, out_a, got_a, wrong_a, _) = side(a, at_b, 0, r);
    let (rt_b, out_b, got_b, wrong_b, ended_b) = side(b, at_a, 1, r);
    eventually(LONG, || got_a.lock().unwrap().len() >= out_b.len() && got_b.lock().unwrap().len() >= out_a.len());
    std::thread::sleep(Duration::from_millis(3));
    let mut res = Ok(());
    for (got, out, wrong, who) in vec![(&got_a, &out_b, &wrong_a, "first"), (&got_b, &out_a, &wrong_b, "second")] {
        let g = got.lock().unwrap().clone();
        let w: Vec<(u16, u32)> = out.iter().map(|x| (x.from, x.k)).collect();
        if let Some((k, x)) = wrong.lock().unwrap().take() {
            res = Err((k, format!("{}: the {} side was handed {}", desc, who, x)));
        } else if g != w {
            let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
            res = Err(("pair", format!("{}: to the {} side {} messages were sent, {} handed over; first difference at {}", desc, who, w.len(), g.len(), k)));
        }
    }
    done.store(true, Ordering::Relaxed);
    // one side ends with its runtime
    std::thread::sleep(Duration::from_millis(r.gen_range(0, 10)));
    rt_a.shutdown_timeout(Duration::from_millis(100));
    if res.is_ok() && !eventually(LONG, || ended_b.load(Ordering::Relaxed)) {
        res = Err(("unending", format!("{}: the stream ended, wait() did not", desc)));
    }
    rt_b.shutdown_timeout(Duration::from_millis(50));
    if res.is_ok() {
        c.count("messages_between_pairs", (out_a.len() + out_b.len()) as u64);
        c.distinct(&("pair", &desc, out_a.len(), out_b.len()));
    }
    res
}

pub fn c28(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    let stall = Stall::start();
    par_cases_on(ctx, 12, ctx.pick(700, 12_000), Duration::from_secs(ctx.pick(45, 700)), move |i| {
        let go = || {
            stall.reset();
            let mut r = c.rng("events", i);
            match i % 6 {
                0..=2 => routes(&c, &mut r),
                3 => pair(&c, &mut r),
                _ => again(&c, &mut r),
            }
        };
        c.eval();
        match go() {
            Ok(()) => {}
            Err(("skip", _)) => c.inconclusive("no address, or a datagram was lost"),
            // what arrived wrong is wrong; what did not arrive may be late
            Err((class, what)) => {
                let late = class.starts_with("lost") || class == "unending" || class == "pair";
                if late && stall.worst_ms() > 1500 {
                    eprintln!("case {} on a stalled machine: {} {}", i, class, what);
                    c.inconclusive("the machine stalled");
                } else if !late || !what.contains("Udp") || matches!(go(), Err((k, _)) if k == class) {
                    c.violation(class, &what, json!({"case": i}));
                } else {
                    c.inconclusive("seen once only");
                }
            }
        }
    });
    ctx.report_panics("event managers carry messages");
    ctx.finish(
        "1-80 peers of a manager over a TCP listener or UDP socket, each message naming what is to be done with it (kept, answered through the sender or through the manager, sent to another peer or to nobody), with data in between that is no message, peers that leave, reset, or come back from the same address while the manager is busy; two managers over one stream; distinct by configuration and numbers of messages",
        100,
        &["UDP cases in which the kernel dropped datagrams are not judged"],
    )
}
