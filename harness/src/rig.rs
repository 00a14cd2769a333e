//! Real servers and clients on real sockets, with seeded fault proxies between
//! them.
use crate::common::*;
use crate::kinds::*;
use over_there::core::{
    reply, request, ClientBuilder, ConnectedClient, ListeningServer, ServerBuilder, Transport,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::collections::{BinaryHeap, HashMap};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Proto {
    Tcp,
    Udp,
}

/// The program itself runs on whatever `Runtime::new()` gives, and that is one
/// thread with its default features: 0 threads asks for that kind here.
pub fn runtime(threads: usize) -> Runtime {
    if threads == 0 {
        return tokio::runtime::Builder::new().basic_scheduler().enable_all().build().expect("runtime");
    }
    tokio::runtime::Builder::new()
        .threaded_scheduler()
        .core_threads(threads)
        .enable_all()
        .build()
        .expect("runtime")
}

/// For work that is all done within `block_on`: one thread at times.
pub fn client_runtime(threads: usize) -> Runtime {
    runtime(if pick_threads_for(0x51) == 0 { 0 } else { threads })
}

pub fn loopback(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}

// ------------------------------------------------------------ custom requests
/// What a custom request asks the monitored server to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Job {
    pub id: u64,
    pub delay_ms: u16,
    pub reply_len: u32,
    pub fail: bool,
    pub pad: u32,
}
impl Job {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&self.delay_ms.to_be_bytes());
        v.extend_from_slice(&self.reply_len.to_be_bytes());
        v.push(self.fail as u8);
        v.extend(stream(self.id ^ 0x5555, self.pad as usize));
        v
    }
    pub fn decode(v: &[u8]) -> Option<Job> {
        if v.len() < 15 {
            return None;
        }
        let mut a = [0u8; 8];
        a.copy_from_slice(&v[0..8]);
        let id = u64::from_be_bytes(a);
        let job = Job {
            id,
            delay_ms: u16::from_be_bytes([v[8], v[9]]),
            reply_len: u32::from_be_bytes([v[10], v[11], v[12], v[13]]),
            fail: v[14] != 0,
            pad: (v.len() - 15) as u32,
        };
        if v[15..] != stream(id ^ 0x5555, v.len() - 15)[..] {
            return None;
        }
        Some(job)
    }
    pub fn reply(&self) -> Vec<u8> {
        let mut v = self.id.to_be_bytes().to_vec();
        v.extend(stream(self.id, self.reply_len as usize));
        v
    }
    pub fn error(&self) -> String {
        format!("refused job {}", self.id)
    }
}
/// Deterministic bytes that identify `id`.
pub fn stream(id: u64, n: usize) -> Vec<u8> {
    let mut x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}

#[derive(Clone, Default)]
pub struct ExecLog {
    pub ids: Arc<Mutex<Vec<u64>>>,
    pub corrupt: Arc<AtomicU64>,
}
impl ExecLog {
    pub fn snapshot(&self) -> Vec<u64> {
        self.ids.lock().unwrap().clone()
    }
}

// ------------------------------------------------------------ server
pub type Handler = Arc<
    dyn Fn(
            request::CustomArgs,
        ) -> futures::future::BoxFuture<'static, Result<reply::CustomArgs, Box<dyn std::error::Error>>>
        + Send
        + Sync,
>;
pub struct SrvCfg {
    pub handler: Option<Handler>,
    pub proto: Proto,
    pub auth: DynAuth,
    pub crypt: DynCrypt,
    pub addr: SocketAddr,
    /// tried instead of `addr`, if there are any
    pub addrs: Vec<SocketAddr>,
    pub packet_ttl: Duration,
    pub cleanup: Duration,
    pub file_ttl: Duration,
    pub proc_ttl: Duration,
    pub dead_proc_ttl: Duration,
    pub log: ExecLog,
    pub custom: bool,
    pub threads: usize,
    pub cloneable: bool,
    /// room between the server's tasks, in messages
    pub buffer: usize,
}
impl SrvCfg {
    pub fn new(proto: Proto, auth: DynAuth, crypt: DynCrypt) -> SrvCfg {
        SrvCfg {
            handler: None,
            proto,
            auth,
            crypt,
            addr: loopback(0),
            addrs: vec![],
            packet_ttl: Duration::from_secs(300),
            cleanup: Duration::from_secs(600),
            file_ttl: Duration::from_secs(600),
            proc_ttl: Duration::from_secs(600),
            dead_proc_ttl: Duration::from_secs(600),
            log: ExecLog::default(),
            custom: true,
            threads: pick_threads(),
            cloneable: true,
            buffer: 1000,
        }
    }
    pub fn noop(proto: Proto) -> SrvCfg {
        SrvCfg::new(proto, make_auth(AuthKind::Noop, &[]), make_crypt(CryptKind::Noop, &[0; 64]))
    }
    pub fn start(self) -> std::io::Result<Srv> {
        let log = self.log.clone();
        if self.threads > 0 {
            let mut rt = runtime(self.threads);
            let s = rt.block_on(self.listen())?;
            return Ok(Srv { addr: s.addr(), log, rt: Some(Host::Pool(rt)), server: Some(s) });
        }
        // one thread that does everything, for as long as the server is wanted
        let (tx, rx) = std::sync::mpsc::channel();
        let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
        let thread = std::thread::Builder::new().name("basic-server".into()).spawn(move || {
            let mut rt = runtime(0);
            match rt.block_on(self.listen()) {
                Ok(s) => {
                    let _ = tx.send(Ok(s));
                    let _ = rt.block_on(stopped);
                }
                Err(x) => {
                    let _ = tx.send(Err(x));
                }
            }
            rt.shutdown_timeout(Duration::from_millis(500));
        })?;
        match rx.recv() {
            Ok(Ok(s)) => {
                ON_ONE_THREAD.fetch_add(1, Ordering::Relaxed);
                Ok(Srv { addr: s.addr(), log, rt: Some(Host::Thread(stop, thread)), server: Some(s) })
            }
            Ok(Err(x)) => Err(x),
            Err(_) => Err(std::io::Error::new(std::io::ErrorKind::Other, "the server's thread ended")),
        }
    }
    async fn listen(self) -> std::io::Result<ListeningServer> {
        let l2 = self.log.clone();
        let mut b = ServerBuilder::default();
        b.packet_ttl(self.packet_ttl)
            .buffer(self.buffer)
            .authenticator(self.auth.clone())
            .bicrypter(self.crypt.clone())
            .cleanup_interval(self.cleanup)
            .file_ttl(self.file_ttl)
            .proc_ttl(self.proc_ttl)
            .dead_proc_ttl(self.dead_proc_ttl)
            .transport(match self.proto {
                Proto::Tcp => Transport::Tcp(if self.addrs.is_empty() { vec![self.addr] } else { self.addrs.clone() }),
                Proto::Udp => Transport::Udp(if self.addrs.is_empty() { vec![self.addr] } else { self.addrs.clone() }),
            });
        if let Some(h) = self.handler.clone() {
            b.custom_handler((move |args: request::CustomArgs| h(args)).into());
        } else if self.custom {
            b.custom_handler(
                (move |args: request::CustomArgs| {
                    let log = l2.clone();
                    async move {
                        let job = match Job::decode(&args.data) {
                            Some(j) => j,
                            None => {
                                log.corrupt.fetch_add(1, Ordering::SeqCst);
                                return Ok(reply::CustomArgs::from(b"?".to_vec()));
                            }
                        };
                        log.ids.lock().unwrap().push(job.id);
                        if job.delay_ms > 0 {
                            tokio::time::delay_for(Duration::from_millis(job.delay_ms as u64)).await;
                        }
                        if job.fail {
                            let e: Box<dyn std::error::Error> = job.error().into();
                            Err(e)
                        } else {
                            Ok(reply::CustomArgs::from(job.reply()))
                        }
                    }
                })
                .into(),
            );
        }
        let server = b.build().expect("server");
        let cloneable = self.cloneable || self.proto == Proto::Tcp;
        if cloneable {
            server.cloneable_listen().await
        } else {
            server.listen().await
        }
    }
}

/// What a server runs on.
enum Host {
    Pool(Runtime),
    Thread(tokio::sync::oneshot::Sender<()>, std::thread::JoinHandle<()>),
}
pub static ON_ONE_THREAD: AtomicU64 = AtomicU64::new(0);
pub static RUNS_ON_ONE_THREAD: AtomicU64 = AtomicU64::new(0);
static CONFIGURED: AtomicU64 = AtomicU64::new(0);
/// How many threads the next server gets: one of its own that does everything
/// (0), or a pool of one or two. It depends on the seed and on the case.
pub fn pick_threads() -> usize {
    pick_threads_for(0)
}
fn pick_threads_for(what: u64) -> usize {
    let n = match current_case() {
        Some(i) => i,
        None => CONFIGURED.fetch_add(1, Ordering::Relaxed) ^ 0x7f7f,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    [0, 1, 2, 2][(stream(n.wrapping_mul(31).wrapping_add(seed).wrapping_add(what << 32), 1)[0] >> 3) as usize % 4]
}

pub struct Srv {
    pub addr: SocketAddr,
    pub log: ExecLog,
    rt: Option<Host>,
    pub server: Option<ListeningServer>,
}
impl Srv {
    pub fn stop(mut self) {
        self.kill();
    }
    fn kill(&mut self) {
        self.server.take();
        match self.rt.take() {
            Some(Host::Pool(rt)) => rt.shutdown_timeout(Duration::from_millis(500)),
            Some(Host::Thread(stop, thread)) => {
                let _ = stop.send(());
                // a server that is stuck keeps its thread; nothing waits for it
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || {
                    let _ = thread.join();
                    let _ = tx.send(());
                });
                let _ = rx.recv_timeout(Duration::from_millis(800));
            }
            None => {}
        }
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        self.kill();
    }
}

// ------------------------------------------------------------ client
pub async fn connect(
    proto: Proto,
    addr: SocketAddr,
    auth: &DynAuth,
    crypt: &DynCrypt,
) -> std::io::Result<ConnectedClient> {
    connect_with(proto, addr, auth, crypt, 1000).await
}
pub async fn connect_with(
    proto: Proto,
    addr: SocketAddr,
    auth: &DynAuth,
    crypt: &DynCrypt,
    buffer: usize,
) -> std::io::Result<ConnectedClient> {
    ClientBuilder::default()
        .buffer(buffer)
        .packet_ttl(Duration::from_secs(300))
        .authenticator(auth.clone())
        .bicrypter(crypt.clone())
        .transport(match proto {
            Proto::Tcp => Transport::Tcp(vec![addr]),
            Proto::Udp => Transport::Udp(vec![addr]),
        })
        .build()
        .expect("client")
        .connect()
        .await
}

/// Kernel-side UDP drops (of this network namespace) since boot.
pub fn udp_kernel_drops() -> u64 {
    let s = std::fs::read_to_string("/proc/net/snmp").unwrap_or_default();
    let mut it = s.lines().filter(|l| l.starts_with("Udp:"));
    if let (Some(h), Some(v)) = (it.next(), it.next()) {
        return h
            .split_whitespace()
            .zip(v.split_whitespace())
            .filter(|(k, _)| *k == "RcvbufErrors" || *k == "SndbufErrors" || *k == "MemErrors")
            .filter_map(|(_, v)| v.parse::<u64>().ok())
            .sum();
    }
    0
}

/// Bytes waiting in the receive queue of the UDP socket bound to this address,
/// and how many datagrams that socket has dropped.
pub fn udp_socket(addr: SocketAddr) -> Option<(u64, u64)> {
    let s = std::fs::read_to_string("/proc/net/udp").ok()?;
    let port = format!(":{:04X}", addr.port());
    s.lines().skip(1).find_map(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 13 || !f[1].ends_with(&port) {
            return None;
        }
        let rx = u64::from_str_radix(f[4].split(':').nth(1)?, 16).ok()?;
        Some((rx, f[12].parse().ok()?))
    })
}
/// With nobody sending any more, does the socket's owner leave datagrams
/// unread? Only believed after seconds without a single one being taken.
pub fn udp_unread(addr: SocketAddr, stall: &Stall) -> bool {
    let t = Instant::now();
    let (mut last, mut since) = (u64::max_value(), Instant::now());
    while t.elapsed() < Duration::from_secs(40) {
        match udp_socket(addr) {
            Some((0, _)) | None => return false,
            Some((n, _)) => {
                if n != last {
                    last = n;
                    since = Instant::now();
                    stall.reset();
                } else if since.elapsed() > Duration::from_secs(6) {
                    if stall.worst_ms() < 1500 {
                        return true;
                    }
                    since = Instant::now();
                    stall.reset();
                }
            }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    false
}

// ------------------------------------------------------------ UDP proxy
#[derive(Clone, Copy, Debug)]
pub struct UdpFaults {
    pub drop: f64,
    pub dup: f64,
    pub delay: f64,
    pub max_delay_ms: u64,
    pub corrupt: f64,
}
pub struct UdpProxy {
    pub addr: SocketAddr,
    pub on: Arc<AtomicBool>,
    pub faults: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
    handle: Option<std::thread::JoinHandle<()>>,
}
impl UdpProxy {
    pub fn start(server: SocketAddr, f: UdpFaults, seed: u64) -> std::io::Result<UdpProxy> {
        let front = UdpSocket::bind(loopback(0))?;
        front.set_nonblocking(true)?;
        let addr = front.local_addr()?;
        let on = Arc::new(AtomicBool::new(true));
        let stop = Arc::new(AtomicBool::new(false));
        let faults = Arc::new(AtomicU64::new(0));
        let (on2, stop2, faults2) = (on.clone(), stop.clone(), faults.clone());
        let handle = std::thread::spawn(move || {
            let mut r = StdRng::seed_from_u64(seed);
            let mut backs: Vec<(SocketAddr, UdpSocket)> = vec![];
            // (due, seq, to_server, client index, bytes)
            let mut q: BinaryHeap<std::cmp::Reverse<(Instant, u64, bool, usize, Vec<u8>)>> = BinaryHeap::new();
            let mut seq = 0u64;
            let mut buf = [0u8; 65_536];
            while !stop2.load(Ordering::Relaxed) {
                let mut fds: Vec<libc::pollfd> = vec![libc::pollfd { fd: front.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
                for b in &backs {
                    fds.push(libc::pollfd { fd: b.1.as_raw_fd(), events: libc::POLLIN, revents: 0 });
                }
                let t = q.peek().map(|x| {
                    let now = Instant::now();
                    if (x.0).0 > now { ((x.0).0 - now).as_millis() as i32 + 1 } else { 0 }
                });
                unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, t.unwrap_or(20).min(20)) };
                let mut got: Vec<(bool, usize, Vec<u8>)> = vec![];
                while let Ok((n, from)) = front.recv_from(&mut buf) {
                    let k = match backs.iter().position(|b| b.0 == from) {
                        Some(k) => k,
                        None => {
                            let s = match UdpSocket::bind(loopback(0)) { Ok(s) => s, Err(_) => continue };
                            let _ = s.set_nonblocking(true);
                            backs.push((from, s));
                            backs.len() - 1
                        }
                    };
                    got.push((true, k, buf[..n].to_vec()));
                }
                for k in 0..backs.len() {
                    while let Ok((n, _)) = backs[k].1.recv_from(&mut buf) {
                        got.push((false, k, buf[..n].to_vec()));
                    }
                }
                let now = Instant::now();
                for (dir, k, mut data) in got {
                    if on2.load(Ordering::Relaxed) {
                        if r.gen_bool(f.drop) {
                            faults2.fetch_add(1, Ordering::Relaxed);
                            continue;
                        }
                        let copies = if r.gen_bool(f.dup) { faults2.fetch_add(1, Ordering::Relaxed); 2 } else { 1 };
                        if f.corrupt > 0.0 && r.gen_bool(f.corrupt) && !data.is_empty() {
                            let p = r.gen_range(0, data.len());
                            data[p] ^= 1 << r.gen_range(0, 8);
                            faults2.fetch_add(1, Ordering::Relaxed);
                        }
                        for _ in 0..copies {
                            let due = if r.gen_bool(f.delay) {
                                faults2.fetch_add(1, Ordering::Relaxed);
                                now + Duration::from_millis(r.gen_range(0, f.max_delay_ms + 1))
                            } else {
                                now
                            };
                            seq += 1;
                            q.push(std::cmp::Reverse((due, seq, dir, k, data.clone())));
                        }
                    } else {
                        seq += 1;
                        q.push(std::cmp::Reverse((now, seq, dir, k, data)));
                    }
                }
                while let Some(x) = q.peek() {
                    if (x.0).0 > Instant::now() {
                        break;
                    }
                    let (_, _, dir, k, data) = q.pop().unwrap().0;
                    if dir {
                        let _ = backs[k].1.send_to(&data, server);
                    } else {
                        let _ = front.send_to(&data, backs[k].0);
                    }
                }
            }
        });
        Ok(UdpProxy { addr, on, faults, stop, handle: Some(handle) })
    }
}
impl Drop for UdpProxy {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

// ------------------------------------------------------------ TCP proxy
/// Forwards bytes unchanged, but in pieces (and lumps) of its own choosing.
pub struct TcpProxy {
    pub addr: SocketAddr,
    pub pieces: Arc<AtomicU64>,
    stop: Arc<AtomicBool>,
    conns: Arc<Mutex<HashMap<u64, (TcpStream, TcpStream)>>>,
}
impl TcpProxy {
    pub fn start(server: SocketAddr, seed: u64) -> std::io::Result<TcpProxy> {
        let l = TcpListener::bind(loopback(0))?;
        let addr = l.local_addr()?;
        l.set_nonblocking(true)?;
        let stop = Arc::new(AtomicBool::new(false));
        let pieces = Arc::new(AtomicU64::new(0));
        let conns: Arc<Mutex<HashMap<u64, (TcpStream, TcpStream)>>> = Default::default();
        let (stop2, pieces2, conns2) = (stop.clone(), pieces.clone(), conns.clone());
        std::thread::spawn(move || {
            let mut n = 0u64;
            while !stop2.load(Ordering::Relaxed) {
                match l.accept() {
                    Ok((c, _)) => {
                        let _ = c.set_nonblocking(false);
                        let s = match TcpStream::connect(server) { Ok(s) => s, Err(_) => continue };
                        let _ = c.set_nodelay(true);
                        let _ = s.set_nodelay(true);
                        n += 1;
                        if let (Ok(c2), Ok(s2), Ok(c3), Ok(s3)) = (c.try_clone(), s.try_clone(), c.try_clone(), s.try_clone()) {
                            conns2.lock().unwrap().insert(n, (c3, s3));
                            let p = pieces2.clone();
                            let sd = h64(&(seed, n, 0));
                            std::thread::spawn(move || pump(c, s, sd, p));
                            let p = pieces2.clone();
                            let sd = h64(&(seed, n, 1));
                            std::thread::spawn(move || pump(s2, c2, sd, p));
                        }
                    }
                    Err(_) => std::thread::sleep(Duration::from_millis(2)),
                }
            }
        });
        Ok(TcpProxy { addr, pieces, stop, conns })
    }
}
impl Drop for TcpProxy {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        for (_, (a, b)) in self.conns.lock().unwrap().drain() {
            let _ = a.shutdown(std::net::Shutdown::Both);
            let _ = b.shutdown(std::net::Shutdown::Both);
        }
    }
}

/// One direction of a byte stream: a seeded mode decides how it is cut.
pub fn pump(mut from: TcpStream, mut to: TcpStream, seed: u64, pieces: Arc<AtomicU64>) {
    let mut r = StdRng::seed_from_u64(seed);
    let mode = r.gen_range(0, 4);
    let mut buf = vec![0u8; 256 * 1024];
    loop {
        if mode == 1 || (mode == 3 && r.gen_bool(0.3)) {
            // let bytes pile up so that packets arrive glued together
            std::thread::sleep(Duration::from_millis(r.gen_range(1, 8)));
        }
        let n = match from.read(&mut buf) {
            Ok(0) | Err(_) => break,
            Ok(n) => n,
        };
        let mut at = 0;
        let mut cuts = 0;
        while at < n {
            let k = match mode {
                1 => n - at,
                _ if cuts > 300 => n - at,
                0 => r.gen_range(1, 40),
                2 => r.gen_range(1, 3000),
                _ => if r.gen_bool(0.2) { r.gen_range(1, 8) } else { r.gen_range(1, 2000) },
            }
            .min(n - at);
            if to.write_all(&buf[at..at + k]).is_err() {
                let _ = from.shutdown(std::net::Shutdown::Both);
                return;
            }
            at += k;
            cuts += 1;
            pieces.fetch_add(1, Ordering::Relaxed);
            if at < n && r.gen_bool(0.1) {
                std::thread::sleep(Duration::from_micros(r.gen_range(20, 400)));
            }
        }
    }
    let _ = to.shutdown(std::net::Shutdown::Write);
}

// ------------------------------------------------------------ process gauges
pub fn open_fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
pub fn cpu_ms() -> u64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
    let t = |x: libc::timeval| x.tv_sec as u64 * 1000 + x.tv_usec as u64 / 1000;
    t(u.ru_utime) + t(u.ru_stime)
}
/// Polls `f` until it is true or `limit` has passed.
pub fn eventually(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
