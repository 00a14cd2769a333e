//! C23: the program itself – `over-there server …` and `over-there client …`
//! as real processes – does what its command line says.
use crate::common::*;
use crate::fs::{disk, Node};
use crate::rig::*;
use over_there::core::{reply, request, Content, Reply, ReplyError, Request};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// The program, or the same on one thread.
fn program() -> PathBuf {
    let name = match pick_threads() {
        0 => {
            RUNS_ON_ONE_THREAD.fetch_add(1, Ordering::Relaxed);
            "otcli1"
        }
        _ => "otcli",
    };
    std::env::current_exe().unwrap().with_file_name(name)
}
pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
fn with_parent(c: &mut Command) -> &mut Command {
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    }
}

pub struct Run {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub hung: bool,
    pub took: Duration,
}
impl Run {
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).to_string()
    }
    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.err).to_string()
    }
    fn show(&self) -> String {
        format!("{}stdout {:?}, stderr {:?}", if self.hung { "still running, " } else { "" }, truncate(&self.stdout(), 300), truncate(&self.stderr(), 500))
    }
    /// The lines of JSON output, as contents.
    fn contents(&self) -> Result<Vec<Content>, String> {
        self.stdout().lines().map(|l| serde_json::from_str::<Content>(l).map_err(|e| format!("output line {:?} is no content: {}", truncate(l, 200), e))).collect()
    }
    fn reply(&self) -> Result<Reply, String> {
        let mut v = self.contents()?;
        match (v.len(), v.pop()) {
            (1, Some(Content::Reply(r))) => Ok(r),
            (n, x) => Err(format!("{} lines of output, the last {:?}", n, x)),
        }
    }
}

/// Runs the program to its end.
pub fn run(args: &[String], stdin: &[u8], limit: Duration) -> Run {
    let t = Instant::now();
    let mut c = Command::new(program());
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut c = with_parent(&mut c).spawn().expect("the program");
    let mut i = c.stdin.take().unwrap();
    let data = stdin.to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let ro = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.read_to_end(&mut v);
        v
    });
    let re = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let hung = loop {
        match c.try_wait() {
            Ok(Some(_)) => break false,
            _ if t.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break true;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let took = t.elapsed();
    let (out, err) = (ro.join().unwrap(), re.join().unwrap());
    let _ = w.join();
    Run { out, err, hung, took }
}

#[derive(Clone, Debug, PartialEq)]
struct Sec {
    a: &'static str,
    e: &'static str,
    akey: String,
    ekey: String,
}
const AUTHS: [&str; 3] = ["none", "sha256", "sha512"];
const CIPHERS: [(&str, usize); 5] = [("none", 0), ("aes128_gcm", 16), ("aes256_gcm", 32), ("aes128_gcm_siv", 16), ("aes256_gcm_siv", 32)];
fn word(r: &mut StdRng, n: usize) -> String {
    (0..n).map(|_| *b"abcdefghijklmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ0123456789".choose(r).unwrap() as char).collect()
}
impl Sec {
    fn any(r: &mut StdRng) -> Sec {
        let (e, n) = *CIPHERS.choose(r).unwrap();
        let k = r.gen_range(1, 100);
        Sec { a: AUTHS.choose(r).unwrap(), e, akey: word(r, k), ekey: word(r, n) }
    }
    fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if self.a != "none" {
            v.extend(strs(&["-a", self.a, "--akey", &self.akey]));
        }
        if self.e != "none" {
            v.extend(strs(&["-e", self.e, "--ekey", &self.ekey]));
        }
        v
    }
}

/// A server process.
struct Served {
    child: Child,
    addr: String,
    proto: &'static str,
    sec: Sec,
    log: PathBuf,
}
impl Served {
    fn start(dir: &Path, log: &Path, proto: &'static str, sec: &Sec, v6: bool, more: &[String]) -> Result<Served, String> {
        for _ in 0..5 {
            let host = if v6 { "[::1]" } else { "127.0.0.1" };
            let port = {
                let a = std::net::TcpListener::bind(format!("{}:0", host)).map_err(|e| e.to_string())?;
                a.local_addr().unwrap().port()
            };
            let addr = format!("{}:{}", host, port);
            let mut args = strs(&["server", &addr, "-t", proto, "--working-dir", &dir.display().to_string()]);
            args.extend(sec.args());
            args.extend(more.iter().cloned());
            let f = fs::File::create(log).unwrap();
            let mut c = Command::new(program());
            c.args(&args).stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
            let child = with_parent(&mut c).spawn().map_err(|e| e.to_string())?;
            let mut s = Served { child, addr, proto, sec: sec.clone(), log: log.to_path_buf() };
            // a port taken by somebody else in between is tried again
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(15) {
                if s.ended() {
                    break;
                }
                let r = s.client(&[], &["version"], b"");
                if r.err.is_empty() && !r.out.is_empty() {
                    return Ok(s);
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let said = s.said();
            if !said.contains("NotAvailable") && !said.contains("in use") && !said.contains("not available") {
                return Err(format!("a server started with {:?} does not answer; it said {:?}", args, said));
            }
        }
        Err("no port".into())
    }
    fn ended(&mut self) -> bool {
        !matches!(self.child.try_wait(), Ok(None))
    }
    fn said(&self) -> String {
        fs::read_to_string(&self.log).unwrap_or_default()
    }
    fn client_args(&self, opts: &[&str], cmd: &[&str]) -> Vec<String> {
        let mut a = strs(&["client", "-t", self.proto]);
        if self.addr.starts_with('[') {
            a.push("-6".into());
        }
        a.extend(self.sec.args());
        a.extend(strs(opts));
        a.push(self.addr.clone());
        a.extend(strs(cmd));
        a
    }
    fn client(&self, opts: &[&str], cmd: &[&str], stdin: &[u8]) -> Run {
        run(&self.client_args(opts, cmd), stdin, Duration::from_secs(30))
    }
}
impl Drop for Served {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

type Bad = (&'static str, String);
macro_rules! bad {
    ($c:expr, $($x:tt)*) => { return Err(($c, format!($($x)*))) };
}

fn is_error(r: &Reply) -> bool {
    matches!(r, Reply::Error(_))
}

// ------------------------------------------------------------ files and directories
#[derive(Clone, Debug)]
enum Cmd {
    Mk(String, bool),
    MvDir(String, String),
    RmDir(String, bool),
    Ls(String),
    LsRoot,
    Write(String, String),
    Read(String),
    MvFile(String, String),
    RmFile(String),
    Version,
    Capabilities,
}
impl Cmd {
    fn args(&self) -> Vec<String> {
        match self {
            Cmd::Mk(p, true) => strs(&["mk-dir", "-p", p]),
            Cmd::Mk(p, false) => strs(&["mk-dir", p]),
            Cmd::MvDir(a, b) => strs(&["mv-dir", a, b]),
            Cmd::RmDir(p, true) => strs(&["rm-dir", "--non-empty", p]),
            Cmd::RmDir(p, false) => strs(&["rm-dir", p]),
            Cmd::Ls(p) => strs(&["ls-dir", p]),
            Cmd::LsRoot => strs(&["ls-root-dir"]),
            Cmd::Write(p, c) => strs(&["write-file", p, c]),
            Cmd::Read(p) => strs(&["read-file", p]),
            Cmd::MvFile(a, b) => strs(&["mv-file", a, b]),
            Cmd::RmFile(p) => strs(&["rm-file", p]),
            Cmd::Version => strs(&["version"]),
            Cmd::Capabilities => strs(&["capabilities"]),
        }
    }
}

enum Want {
    Fails,
    Shows(Vec<u8>),
    Entries(BTreeMap<String, (bool, bool, bool)>),
    Said(Vec<String>),
    Something,
}

/// Does locally, below `m`, what the command asks for below `s`.
fn locally(c: &Cmd, at: &dyn Fn(&str) -> PathBuf) -> Want {
    let said = |ok: std::io::Result<()>, w: &[&String]| if ok.is_ok() { Want::Said(w.iter().map(|x| x.to_string()).collect()) } else { Want::Fails };
    match c {
        Cmd::Mk(p, true) => said(fs::create_dir_all(at(p)), &[p]),
        Cmd::Mk(p, false) => said(fs::create_dir(at(p)), &[p]),
        Cmd::MvDir(a, b) => {
            if at(a).is_dir() { said(fs::rename(at(a), at(b)), &[a, b]) } else { Want::Fails }
        }
        Cmd::MvFile(a, b) => {
            if at(a).is_file() { said(fs::rename(at(a), at(b)), &[a, b]) } else { Want::Fails }
        }
        Cmd::RmDir(p, true) => said(fs::remove_dir_all(at(p)), &[p]),
        Cmd::RmDir(p, false) => said(fs::remove_dir(at(p)), &[p]),
        Cmd::RmFile(p) => said(if at(p).is_file() { fs::remove_file(at(p)) } else { Err(std::io::ErrorKind::Other.into()) }, &[p]),
        Cmd::Write(p, t) => if fs::write(at(p), t).is_ok() { Want::Something } else { Want::Fails },
        Cmd::Read(p) => fs::read(at(p)).map(Want::Shows).unwrap_or(Want::Fails),
        Cmd::Ls(_) | Cmd::LsRoot => {
            let p = if let Cmd::Ls(p) = c { p.clone() } else { ".".to_string() };
            match fs::read_dir(at(&p)) {
                Err(_) => Want::Fails,
                Ok(d) => Want::Entries(
                    d.flatten()
                        .map(|e| {
                            let t = e.file_type().unwrap();
                            (e.file_name().to_string_lossy().to_string(), (t.is_file(), t.is_dir(), t.is_symlink()))
                        })
                        .collect(),
                ),
            }
        }
        Cmd::Version | Cmd::Capabilities => Want::Something,
    }
}

fn text(r: &mut StdRng) -> String {
    match r.gen_range(0, 8) {
        0 => "-".into(),
        1 => "ein\nzwei\n\ndrei\n".into(),
        2 => "\u{fc}\u{1f980}\u{4e2d}\t\"quoted\" 'x' \\n {}".into(),
        3 => { let n = r.gen_range(1, 20_000); word(r, n) }
        4 => { let n = r.gen_range(100, 300); (0..n).map(|_| char::from(r.gen_range(0x20u8, 0x7f))).collect::<String>().trim_start_matches('-').to_string() + "." }
        _ => { let n = r.gen_range(1, 60); word(r, n) }
    }
}

fn history(c: &Ctx, i: u64, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let (s, m) = (t.path().join("served"), t.path().join("mirror"));
    for d in &[&s, &m] {
        fs::create_dir(d).unwrap();
        fs::create_dir_all(d.join("d/e")).unwrap();
        fs::write(d.join("f"), "first").unwrap();
        fs::write(d.join("d/bin"), &[0u8, 255, 10, 0xc3]).unwrap();
        fs::create_dir(d.join("links")).unwrap();
        for (n, t) in &[("dir", "../d"), ("file", "../f"), ("none", "nothing")] {
            std::os::unix::fs::symlink(t, d.join("links").join(n)).unwrap();
        }
        // never named, only listed
        std::os::unix::fs::symlink("d/e", d.join("a link")).unwrap();
    }
    let sec = Sec::any(r);
    let proto = if r.gen() { "tcp" } else { "udp" };
    let v6 = i % 5 == 4;
    trace.push(format!("{} {:?} v6={}", proto, sec, v6));
    let mut srv = Served::start(&s, &t.path().join("log"), proto, &sec, v6, &[]).map_err(|e| ("server", e))?;
    // files the server may still hold open: moving or removing these may be refused
    let mut held: Vec<PathBuf> = vec![];
    let names = ["f", "g", "d", "d/f", "d/e", "d/bin", "d/e/x", "n/m", "n", "n/m/o", "./g", "d/../f", "nope/x", "d/e/../bin", "sp ace", "\u{fc}", "d/", "d/e/", "n/m/", "n/../d/y/z", "..dots", "..dots/x", ".hidden", "links", "links"];
    for k in 0..c.pick(14, 30) {
        if c.done() {
            return Ok(());
        }
        let name = |r: &mut StdRng| {
            let n = *names.choose(r).unwrap();
            if r.gen_bool(0.3) { s.join(n).display().to_string() } else { n.to_string() }
        };
        let cmd = match r.gen_range(0, 22) {
            0..=1 => Cmd::Mk(name(r), false),
            2 => Cmd::Mk(name(r), true),
            3 => Cmd::MvDir(name(r), name(r)),
            4 => Cmd::RmDir(name(r), false),
            5 => Cmd::RmDir(name(r), true),
            6..=7 => Cmd::Ls(if r.gen_bool(0.4) { ".".into() } else { name(r) }),
            8 => Cmd::LsRoot,
            9..=11 => Cmd::Write(name(r), text(r)),
            12..=15 => Cmd::Read(name(r)),
            16..=17 => Cmd::MvFile(name(r), name(r)),
            18 => Cmd::RmFile(name(r)),
            19 => Cmd::Version,
            20 => Cmd::Capabilities,
            _ => {
                // a file the server has never seen
                let n = format!("new{}", k);
                for d in &[&s, &m] {
                    fs::write(d.join(&n), n.as_bytes()).unwrap();
                }
                if r.gen() { Cmd::RmFile(n) } else { Cmd::MvFile(n.clone(), format!("{}-moved", n)) }
            }
        };
        let at = |p: &str| -> PathBuf {
            let under = Path::new(p).strip_prefix(&s).map(|x| x.display().to_string() + if p.ends_with('/') { "/" } else { "" });
            m.join(under.unwrap_or(p.to_string()))
        };
        let canon = |p: &str| at(p).canonicalize().ok();
        // entries are told by a path, however it is spelled
        let entry = |p: &str| -> String {
            let dir = match &cmd {
                Cmd::Ls(d) => s.join(d),
                _ => s.clone(),
            };
            let q = s.join(p);
            let (a, b) = (q.parent().and_then(|x| x.canonicalize().ok()), dir.canonicalize().ok());
            match q.file_name() {
                Some(n) if a == b => n.to_string_lossy().to_string(),
                _ => format!("{} (elsewhere)", p),
            }
        };
        // does the command concern something that may be open?
        let touches = |p: &String| canon(p).map(|p| held.iter().any(|h| h.starts_with(&p))).unwrap_or(false);
        let maybe_open = match &cmd {
            Cmd::MvDir(a, b) | Cmd::MvFile(a, b) => touches(a) || touches(b),
            Cmd::RmDir(a, _) | Cmd::RmFile(a) => touches(a),
            _ => false,
        };
        // odd cases whose outcome is not laid down
        let odd = match &cmd {
            Cmd::RmDir(p, true) => !at(p).is_dir(),
            Cmd::MvDir(a, b) | Cmd::MvFile(a, b) => canon(a).is_some() && canon(a) == canon(b),
            _ => false,
        };
        if odd {
            continue;
        }
        let json = r.gen_bool(0.4);
        let redirect = !json && r.gen_bool(0.25);
        let red = t.path().join("redirected");
        let mut opts: Vec<&str> = vec![];
        if json {
            opts.extend(&["-o", "json"]);
        }
        let red_s = red.display().to_string();
        let before_red = if r.gen() { "already here\n" } else { "" };
        if redirect {
            let _ = fs::remove_file(&red);
            if !before_red.is_empty() {
                fs::write(&red, before_red).unwrap();
            }
            opts.extend(&["--redirect-stdout", &red_s]);
        }
        let args = cmd.args();
        let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let mut run = srv.client(&opts, &args, b"");
        trace.push(format!("{:?} json={} redirect={} -> {}", cmd, json, redirect, run.show()));
        c.count("commands", 1);
        if run.hung {
            bad!("hang", "{:?} does not end", cmd);
        }
        if run.stderr().contains("panicked") {
            bad!("panic", "{:?}: {}", cmd, truncate(&run.stderr(), 500));
        }
        if proto == "udp" && (run.stderr().contains("imeout") || run.stdout().contains("imeout")) {
            // a datagram got lost; whether it was carried out is unknown
            return Err(("lost", String::new()));
        }
        if redirect {
            let f = fs::read(&red).unwrap_or_default();
            if !f.starts_with(before_red.as_bytes()) {
                bad!("redirect", "{:?} with --redirect-stdout lost what the file held: {:?}", cmd, truncate(&String::from_utf8_lossy(&f), 200));
            }
            if !run.out.is_empty() {
                bad!("redirect", "{:?} with --redirect-stdout still printed {:?}", cmd, truncate(&run.stdout(), 200));
            }
            run.out = f[before_red.len()..].to_vec();
        }
        // outcome as the user sees it
        let reply = if json { Some(run.reply().map_err(|e| ("output", format!("{:?} -o json: {}", cmd, e)))?) } else { None };
        let failed = match &reply {
            Some(r) => is_error(r),
            None => !run.err.is_empty(),
        };
        if failed && maybe_open {
            // refused because it is open: then nothing may have happened
        } else {
            let binary = matches!(&cmd, Cmd::Read(_)) && !json;
            match locally(&cmd, &at) {
                Want::Shows(v) if binary && std::str::from_utf8(&v).is_err() => {}
                Want::Fails => {
                    if !failed {
                        bad!("outcome", "{:?} must fail but: {}", cmd, run.show());
                    }
                }
                w => {
                    if failed {
                        bad!("outcome", "{:?} must succeed but: {}", cmd, run.show());
                    }
                    let why = match (w, &reply) {
                        (Want::Shows(v), None) => {
                            if run.out != v { Some(format!("printed {} bytes that differ from the {} in the file", run.out.len(), v.len())) } else { None }
                        }
                        (Want::Shows(v), Some(Reply::FileContents(a))) => if a.contents != v { Some("contents differ".into()) } else { None },
                        (Want::Entries(e), None) => {
                            let mut got: Vec<String> = run
                                .stdout()
                                .lines()
                                .map(|x| match x.find(' ') {
                                    Some(k) => format!("{} {}", &x[..k], entry(&x[k + 1..])),
                                    None => x.to_string(),
                                })
                                .collect();
                            got.sort();
                            let mut want: Vec<String> = e.iter().map(|(p, (f, d, l))| format!("[{}{}{}] {}", if *f { "F" } else { "" }, if *d { "D" } else { "" }, if *l { "S" } else { "" }, p)).collect();
                            want.sort();
                            if got != want { Some(format!("listed {:?} instead of {:?}", got, want)) } else { None }
                        }
                        (Want::Entries(e), Some(Reply::DirContentsList(a))) => {
                            let got: BTreeMap<String, (bool, bool, bool)> = a.entries.iter().map(|e| (entry(&e.path), (e.is_file, e.is_dir, e.is_symlink))).collect();
                            if got != e || a.entries.len() != e.len() { Some(format!("listed {:?} instead of {:?}", got, e)) } else { None }
                        }
                        (Want::Said(w), None) => {
                            let o = run.stdout();
                            let mut rest = &o[..];
                            let mut miss = None;
                            for x in &w {
                                match rest.find(x.as_str()) {
                                    Some(p) => rest = &rest[p + x.len()..],
                                    None => miss = Some(format!("does not tell {:?} in {:?}", x, o)),
                                }
                            }
                            miss
                        }
                        (Want::Said(w), Some(rep)) => {
                            let want = match &cmd {
                                Cmd::Mk(..) => Reply::DirCreated(reply::DirCreatedArgs { path: w[0].clone() }),
                                Cmd::MvDir(..) => Reply::DirRenamed(reply::DirRenamedArgs { from: w[0].clone(), to: w[1].clone() }),
                                Cmd::RmDir(..) => Reply::DirRemoved(reply::DirRemovedArgs { path: w[0].clone() }),
                                Cmd::MvFile(..) => Reply::UnopenedFileRenamed(reply::UnopenedFileRenamedArgs { from: w[0].clone(), to: w[1].clone() }),
                                _ => Reply::UnopenedFileRemoved(reply::UnopenedFileRemovedArgs { path: w[0].clone() }),
                            };
                            if *rep != want { Some(format!("gave {:?} instead of {:?}", rep, want)) } else { None }
                        }
                        (Want::Something, rep) => match (&cmd, rep) {
                            (Cmd::Write(..), Some(Reply::FileWritten(_))) | (Cmd::Version, Some(Reply::Version(_))) | (Cmd::Capabilities, Some(Reply::Capabilities(_))) => None,
                            (Cmd::Write(..), None) | (Cmd::Capabilities, None) if !run.out.is_empty() => None,
                            (Cmd::Version, None) if run.stdout().trim() == "0.1.0-alpha.2" => None,
                            (_, x) => Some(format!("gave {:?} / {:?}", x, run.stdout())),
                        },
                        (_, x) => Some(format!("gave {:?}", x)),
                    };
                    if let Some(w) = why {
                        bad!("output", "{:?} {}", cmd, w);
                    }
                    c.distinct(&format!("{:?}{}", cmd, json));
                }
            }
            if !failed {
                let fix = |held: &mut Vec<PathBuf>| held.retain(|h| h.exists());
                match &cmd {
                    Cmd::Write(p, _) | Cmd::Read(p) => held.extend(canon(p)),
                    _ => fix(&mut held),
                }
                // a directory that was moved takes along what was in it
                if let Cmd::MvDir(..) = &cmd {
                    if maybe_open {
                        held.clear();
                        held.push(m.clone());
                    }
                }
            } else if let Cmd::Read(p) | Cmd::Write(p, _) = &cmd {
                held.extend(canon(p));
            }
        }
        let strip = |root: &Path| -> BTreeMap<PathBuf, Node> { disk(root).into_iter().map(|(k, v)| (k.strip_prefix(root).unwrap().to_path_buf(), v)).collect() };
        let (a, b) = (strip(&s), strip(&m));
        if a != b {
            let d: Vec<_> = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|x| x.0).chain(b.keys().filter(|k| !a.contains_key(*k))).collect();
            bad!("effect", "after {:?} ({}) the server's directory is not what it must be: {:?}", cmd, if failed { "failed" } else { "succeeded" }, d);
        }
    }
    if srv.ended() || srv.said().contains("panicked") {
        bad!("server", "the server said {:?}", truncate(&srv.said(), 500));
    }
    Ok(())
}

// ------------------------------------------------------------ processes
fn execs(c: &Ctx, i: u64, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let s = t.path().join("served");
    fs::create_dir_all(s.join("sub")).unwrap();
    let sec = Sec::any(r);
    let proto = if r.gen_bool(0.6) { "tcp" } else { "udp" };
    trace.push(format!("{} {:?}", proto, sec));
    let mut srv = Served::start(&s, &t.path().join("log"), proto, &sec, i % 10 == 1, &[]).map_err(|e| ("server", e))?;
    for k in 0..c.pick(4, 10) {
        if c.done() {
            return Ok(());
        }
        let json = r.gen_bool(0.4);
        let human_red = !json && r.gen_bool(0.5);
        let exit_print = r.gen_bool(0.5);
        let max = if proto == "udp" { 8_000 } else { 200_000 };
        let me = crate::proc::exe();
        let kind = r.gen_range(0, 6);
        let mut args: Vec<String> = vec![];
        let (mut o, mut e, mut stdin): (Option<Vec<u8>>, Vec<u8>, Vec<u8>) = (Some(vec![]), vec![], vec![]);
        let code = if r.gen_bool(0.4) { r.gen_range(60, 256) } else { r.gen_range(0, 60) } as i32;
        let mut is_args = None;
        let mut no_stdin = r.gen_bool(0.5);
        match kind {
            0..=2 => {
                let seed = r.gen_range(0, 1u64 << 40);
                let (n, m) = (r.gen_range(0, max), r.gen_range(0, max));
                let pause = *[0, 2, 20].choose(r).unwrap();
                args = strs(&["child", "emit", &seed.to_string(), &n.to_string(), &m.to_string(), &code.to_string(), &pause.to_string()]);
                o = Some(stream(seed, n));
                e = stream(seed + 1, m);
                if r.gen_bool(0.3) {
                    // input nobody wants
                    stdin = b"x\n".repeat(r.gen_range(1, 30));
                    no_stdin = false;
                }
            }
            3 | 4 => {
                let mut v = vec![];
                for _ in 0..r.gen_range(1, 40) {
                    let n = if proto == "tcp" && r.gen_bool(0.05) { r.gen_range(300, 20_000) } else { r.gen_range(0, 300) };
                    let mut l = rand_bytes(r, n);
                    l.retain(|b| *b != b'\n');
                    v.extend(l);
                    v.push(b'\n');
                }
                if r.gen() {
                    v.extend(b"last line");
                }
                args = strs(&["child", "echo", &v.len().to_string(), &code.to_string()]);
                o = Some(v.clone());
                stdin = v;
                no_stdin = false;
            }
            _ => {
                let list: Vec<String> = (0..r.gen_range(0, 5)).map(|_| ["a", "b=c", "two words", "\u{fc}", "$HOME", "*", "'q'"].choose(r).unwrap().to_string()).collect();
                args = strs(&["child", "args"]);
                args.extend(list.clone());
                is_args = Some(list);
                o = None;
            }
        }
        let code = if kind > 4 { 0 } else { code };
        let cwd = if kind > 4 && r.gen() { Some(s.join("sub").display().to_string()) } else { None };
        let (ro, re) = (t.path().join(format!("o{}", k)), t.path().join(format!("e{}", k)));
        let (ro_s, re_s) = (ro.display().to_string(), re.display().to_string());
        let mut opts: Vec<&str> = vec![];
        if json {
            opts.extend(&["-o", "json"]);
        }
        // one of them or both
        let (red_o, red_e) = match r.gen_range(0, 4) { _ if !human_red => (false, false), 0 => (true, false), 1 => (false, true), _ => (true, true) };
        if red_o {
            fs::write(&ro, "before;").unwrap();
            opts.extend(&["--redirect-stdout", &ro_s]);
        }
        if red_e {
            opts.extend(&["--redirect-stderr", &re_s]);
        }
        if exit_print {
            opts.push("--exit-print");
        }
        let mut cmd: Vec<&str> = vec!["exec", "--post-exit-duration", "700"];
        if no_stdin {
            cmd.push("--no-stdin");
        }
        if let Some(d) = &cwd {
            cmd.extend(&["--current-dir", d]);
        }
        cmd.push(&me);
        cmd.extend(args.iter().map(|x| x.as_str()));
        let mut run = srv.client(&opts, &cmd, &stdin);
        c.count("executions", 1);
        c.count("exec_output_bytes", run.out.len() as u64);
        trace.push(format!("exec {:?} json={} redirect={} exit_print={} stdin={} -> {} + {} bytes", args, json, human_red, exit_print, stdin.len(), run.out.len(), run.err.len()));
        if run.stderr().contains("imeout") {
            return Err(("lost", truncate(&run.stderr(), 200)));
        }
        if run.hung {
            bad!("hang", "exec {:?} does not end: {}", args, run.show());
        }
        if run.stderr().contains("panicked at") {
            bad!("panic", "exec {:?}: {}", args, truncate(&run.stderr(), 700));
        }
        let mut status: Option<(bool, Option<i32>)> = None;
        if json {
            let (mut a, mut b) = (vec![], vec![]);
            let mut pid = None;
            for x in run.contents().map_err(|e| ("output", e))? {
                let id = match x {
                    Content::Reply(Reply::ProcStdoutContents(x)) => { a.extend(x.output); x.id }
                    Content::Reply(Reply::ProcStderrContents(x)) => { b.extend(x.output); x.id }
                    Content::Reply(Reply::ProcStatus(x)) => {
                        if status.is_some() {
                            bad!("output", "exec -o json reported the end twice");
                        }
                        status = Some((x.is_alive, x.exit_code));
                        x.id
                    }
                    x => bad!("output", "exec -o json printed {:?}", x),
                };
                if *pid.get_or_insert(id) != id {
                    bad!("output", "exec reported about another process");
                }
            }
            if !run.err.is_empty() {
                bad!("output", "exec -o json wrote to stderr: {}", truncate(&run.stderr(), 300));
            }
            if status != Some((false, Some(code))) {
                bad!("status", "exec of a process that exits with {} reported {:?}", code, status);
            }
            run.out = a;
            run.err = b;
        } else {
            if red_e {
                if !run.err.is_empty() {
                    bad!("redirect", "stderr redirected, still printed {}", run.show());
                }
                run.err = fs::read(&re).unwrap_or_default();
            }
            if red_o {
                if !run.out.is_empty() {
                    bad!("redirect", "stdout redirected, still printed {}", run.show());
                }
                let f = fs::read(&ro).unwrap_or_default();
                if !f.starts_with(b"before;") {
                    bad!("redirect", "what the file held is gone");
                }
                run.out = f[7..].to_vec();
            }
            if exit_print {
                // the status is told when the end is noticed; output that was
                // still on its way follows it
                let s = run.err.clone();
                let tail = format!(" exited with code {}", code);
                let pos = s.windows(5).enumerate().filter(|(_, w)| *w == b"Proc ").map(|x| x.0).find(|p| {
                    let rest = &s[p + 5..];
                    let d = rest.iter().take_while(|b| b.is_ascii_digit()).count();
                    d > 0 && rest[d..].starts_with(tail.as_bytes())
                });
                match pos {
                    None => bad!("status", "--exit-print of a process that exits with {}: {:?}", code, truncate(&String::from_utf8_lossy(&s[s.len().saturating_sub(200)..]), 300)),
                    Some(p) => {
                        let d = s[p + 5..].iter().take_while(|b| b.is_ascii_digit()).count();
                        run.err.drain(p..p + 5 + d + tail.len());
                    }
                }
            }
        }
        let same = |name: &str, got: &[u8], want: &[u8]| -> Result<(), Bad> {
            if got != want {
                let p = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
                return Err(("output", format!("{} of exec {:?}: {} bytes instead of {}, different from byte {} on (… {} instead of {})", name, args, got.len(), want.len(), p,
                    hex(&got[p..got.len().min(p + 12)]), hex(&want[p..want.len().min(p + 12)]))));
            }
            Ok(())
        };
        match &o {
            Some(o) => {
                same("stdout", &run.out, o)?;
                same("stderr", &run.err, &e)?;
            }
            None => {
                let v: Value = serde_json::from_slice(&run.out).map_err(|e| ("output", format!("{}: {}", e, run.show())))?;
                let dir = if cwd.is_some() { s.join("sub") } else { s.clone() }.canonicalize().unwrap().display().to_string();
                if v != json!({"cwd": dir, "args": is_args.clone().unwrap()}) {
                    bad!("started", "exec of {:?} in {:?} started {}", is_args, dir, v);
                }
            }
        }
        c.distinct(&(kind, json, red_o, red_e, exit_print, run.out.len(), stdin.len()));
    }
    // a program that does not exist, and a process that does not exist
    for cmd in &[&["exec", "/nonexistent/program"][..], &["reattach", "4194301", "--no-stdin"][..]] {
        let json: bool = r.gen();
        let run = srv.client(if json { &["-o", "json"] } else { &[] }, cmd, b"");
        trace.push(format!("{:?} json={} -> {}", cmd, json, run.show()));
        if run.hung || run.stderr().contains("panicked at") {
            bad!("panic", "{:?}: {}", cmd, run.show());
        }
        if run.stdout().contains("imeout") || run.stderr().contains("imeout") {
            return Err(("lost", String::new()));
        }
        if json {
            let x = run.reply().map_err(|e| ("output", format!("{:?}: {}", cmd, e)))?;
            if !is_error(&x) {
                bad!("outcome", "{:?} gave {:?}", cmd, x);
            }
        } else if run.err.is_empty() || !run.out.is_empty() {
            bad!("outcome", "{:?} gave {}", cmd, run.show());
        }
    }
    // reattaching to a process started by somebody else
    let (seed, n) = (r.gen_range(0, 1u64 << 40), r.gen_range(1, 8000));
    let gate = t.path().join("gate");
    let start = serde_json::to_string(&Content::from(Request::ExecProc(request::ExecProcArgs {
        command: crate::proc::exe(),
        args: strs(&["child", "gated", &gate.display().to_string(), &seed.to_string(), &n.to_string(), "7"]),
        stdin: true,
        stdout: true,
        stderr: true,
        current_dir: None,
    }))).unwrap();
    let run = srv.client(&[], &["raw", &start], b"");
    let pid = match run.reply() {
        Ok(Reply::ProcStarted(a)) => a.id.to_string(),
        x if format!("{:?}", x).contains("imeout") => return Err(("lost", String::new())),
        x => bad!("outcome", "raw exec gave {:?}", x),
    };
    fs::write(&gate, "").unwrap();
    let run = srv.client(&["-o", "json"], &["reattach", "--no-stdin", "--post-exit-duration", "700", &pid], b"");
    if run.stdout().contains("imeout") || run.stderr().contains("imeout") {
        return Err(("lost", String::new()));
    }
    let mut got = vec![];
    let mut end = None;
    for x in run.contents().map_err(|e| ("output", e))? {
        match x {
            Content::Reply(Reply::ProcStdoutContents(x)) => got.extend(x.output),
            Content::Reply(Reply::ProcStatus(x)) => end = Some((x.is_alive, x.exit_code)),
            x => bad!("output", "reattach printed {:?}", x),
        }
    }
    if got != stream(seed, n) || end != Some((false, Some(7))) {
        bad!("output", "reattach printed {} bytes of {} and reported {:?}", got.len(), n, end);
    }
    if srv.ended() || srv.said().contains("panicked") {
        bad!("server", "the server said {:?}", truncate(&srv.said(), 500));
    }
    Ok(())
}

// ------------------------------------------------------------ raw mode
fn raws(c: &Ctx, _i: u64, r: &mut StdRng, trace: &mut Vec<String>) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let s = t.path().join("served");
    fs::create_dir_all(&s).unwrap();
    let sec = Sec::any(r);
    let proto = if r.gen() { "tcp" } else { "udp" };
    trace.push(format!("{} {:?}", proto, sec));
    let srv = Served::start(&s, &t.path().join("log"), proto, &sec, false, &[]).map_err(|e| ("server", e))?;
    for _ in 0..c.pick(3, 8) {
        let meta = r.gen();
        // (line, what must come back, id)
        let mut lines: Vec<(Vec<u8>, Option<Request>, String)> = vec![];
        let mut next = 0;
        for k in 0..r.gen_range(1, 30) {
            let id = format!("{}-{}", k, word(r, 6));
            let q = match r.gen_range(0, 8) {
                0 => Request::Heartbeat,
                1 => Request::Version,
                2 | 3 => { next += 1; Request::CreateDir(request::CreateDirArgs { path: format!("dir {}/\u{fc}{}", next % 3, k), include_components: true }) }
                4 => Request::ListDirContents(request::ListDirContentsArgs { path: ".".into() }),
                5 => Request::RemoveDir(request::RemoveDirArgs { path: format!("missing{}{}", k, if r.gen_bool(0.3) { word(r, 9000) } else { String::new() }), non_empty: false }),
                _ => {
                    if r.gen_bool(0.3) {
                        let mut v: Vec<u8> = serde_json::to_vec(&Content::from(Request::Heartbeat)).unwrap();
                        let at = r.gen_range(0, v.len() + 1);
                        v.insert(at, *[0xffu8, 0xc3, 0x80].choose(r).unwrap());
                        lines.push((v, None, String::new()));
                        continue;
                    }
                    let junk = match r.gen_range(0, 7) {
                        0 => "".to_string(),
                        1 => "{}".into(),
                        2 => word(r, 20),
                        3 => serde_json::to_string(&Content::from(Reply::Heartbeat)).unwrap(),
                        4 => "{\"type\":\"version_reques\"}".into(),
                        5 => "[[[[[[".into(),
                        _ => "null".into(),
                    };
                    lines.push((junk.into_bytes(), None, String::new()));
                    continue;
                }
            };
            let v = serde_json::to_value(&Content::from(q.clone())).unwrap();
            let l = if meta { json!({"content": v, "metadata": {"id": id, "k": k.to_string()}}) } else { v };
            lines.push((l.to_string().into_bytes(), Some(q), id));
        }
        // the first may come as an argument
        let first = String::from_utf8(lines[0].0.clone()).unwrap_or_default();
        let arg = r.gen_bool(0.4) && !first.is_empty() && !first.starts_with('-');
        let mut cmd = vec!["raw", "-i"];
        if meta {
            cmd.push("-m");
        }
        if arg {
            cmd.push(&first);
        }
        let mut input: Vec<u8> = lines.iter().skip(arg as usize).flat_map(|l| l.0.iter().copied().chain(std::iter::once(b'\n'))).collect();
        if r.gen() && !lines.last().unwrap().0.is_empty() && (!arg || lines.len() > 1) {
            input.pop();
        }
        let run = srv.client(&[], &cmd, &input);
        c.count("raw_lines", lines.len() as u64);
        if run.stdout().contains("imeout") || run.stderr().contains("imeout") {
            return Err(("lost", String::new()));
        }
        if run.hung || run.stderr().contains("panicked") {
            bad!("panic", "raw: {}", run.show());
        }
        let out = run.stdout();
        let got: Vec<&str> = out.lines().collect();
        if got.len() != lines.len() {
            bad!("raw", "{} lines of input gave {} lines of output (meta={}): {:?} -> {}", lines.len(), got.len(), meta, truncate(&String::from_utf8_lossy(&input), 600), run.show());
        }
        for ((line, q, id), got) in lines.iter().zip(&got) {
            let line = truncate(&String::from_utf8_lossy(line), 600);
            let v: Value = serde_json::from_str(got).map_err(|e| ("raw", format!("{}: {}", e, got)))?;
            let content = if meta { v["content"].clone() } else { v.clone() };
            let reply = match serde_json::from_value::<Content>(content) {
                Ok(Content::Reply(x)) => x,
                x => bad!("raw", "{} gave {} ({:?})", line, got, x),
            };
            if meta {
                let m = if q.is_some() { json!({"id": id, "k": id.split('-').next().unwrap()}) } else { json!({}) };
                if v["metadata"] != m {
                    bad!("raw", "{} came back with metadata {} instead of {}", line, v["metadata"], m);
                }
            }
            let ok = match q {
                None => matches!(reply, Reply::Error(_)),
                Some(Request::Heartbeat) => reply == Reply::Heartbeat,
                Some(Request::Version) => matches!(reply, Reply::Version(_)),
                Some(Request::CreateDir(a)) => reply == Reply::DirCreated(reply::DirCreatedArgs { path: a.path.clone() }) && s.join(&a.path).is_dir(),
                Some(Request::ListDirContents(_)) => matches!(reply, Reply::DirContentsList(_)),
                Some(Request::RemoveDir(_)) => matches!(reply, Reply::Error(ReplyError::Io(_))),
                _ => true,
            };
            if !ok {
                bad!("raw", "{} gave {:?}", line, reply);
            }
        }
        c.distinct(&(meta, arg, lines.iter().map(|l| l.0.clone()).collect::<Vec<_>>()));
    }
    // a server that says nothing any more: a line is still answered by a line
    unsafe { libc::kill(srv.child.id() as i32, libc::SIGSTOP) };
    let meta: bool = r.gen();
    let lines: Vec<String> = (0..r.gen_range(1, 3))
        .map(|k| {
            let v = serde_json::to_value(&Content::from(Request::Version)).unwrap();
            if meta { json!({"content": v, "metadata": {"k": k.to_string()}}) } else { v }.to_string() + "\n"
        })
        .collect();
    let run = srv.client(&["--timeout", "0.4"], if meta { &["raw", "-i", "-m"] } else { &["raw", "-i"] }, lines.concat().as_bytes());
    unsafe { libc::kill(srv.child.id() as i32, libc::SIGCONT) };
    c.count("raw_lines_without_answer", lines.len() as u64);
    let got: Vec<Value> = run.stdout().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let right = |k: usize, v: &Value| {
        let content = if meta { v["content"].clone() } else { v.clone() };
        matches!(serde_json::from_value::<Content>(content), Ok(Content::Reply(Reply::Error(_)))) && (!meta || v["metadata"] == json!({"k": k.to_string()}))
    };
    if run.hung || got.len() != lines.len() || !got.iter().enumerate().all(|(k, v)| right(k, v)) {
        bad!("raw", "at a server that is stopped, {:?} with --timeout 0.4 gave {}", lines, run.show());
    }
    Ok(())
}

// ------------------------------------------------------------ security, timeouts, lifetimes
fn refusals(c: &Ctx, i: u64, r: &mut StdRng, trace: &mut Vec<String>, stall: &Stall) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let s = t.path().join("served");
    fs::create_dir_all(&s).unwrap();
    let mut sec = Sec::any(r);
    if sec.a == "none" && sec.e == "none" {
        sec.a = "sha256";
    }
    let proto = if r.gen() { "tcp" } else { "udp" };
    let mut srv = Served::start(&s, &t.path().join("log"), proto, &sec, false, &[]).map_err(|e| ("server", e))?;
    for k in 0..3 {
        let mut other = sec.clone();
        match r.gen_range(0, 4) {
            0 if sec.a != "none" => other.akey = format!("{}x", sec.akey),
            1 if sec.e != "none" && sec.e.ends_with("siv") | (sec.e.ends_with("gcm")) => other.ekey = word(r, sec.ekey.len()),
            2 => other = Sec::any(r),
            _ => other = Sec { a: "none", e: "none", akey: String::new(), ekey: String::new() },
        }
        if other == sec {
            continue;
        }
        srv.sec = other.clone();
        stall.reset();
        let json: bool = r.gen();
        let mut opts = vec!["--timeout", "0.7"];
        if json {
            opts.extend(&["-o", "json"]);
        }
        let name = format!("by-stranger-{}", k);
        let run = srv.client(&opts, &["mk-dir", &name], b"");
        srv.sec = sec.clone();
        trace.push(format!("{} server {:?} client {:?} -> {} after {:?}", proto, sec, other, run.show(), run.took));
        c.count("refused_strangers", 1);
        if s.join(&name).exists() {
            bad!("stranger", "a client with {:?} was obeyed by a server with {:?}", other, sec);
        }
        if run.stderr().contains("panicked") || run.hung {
            bad!("panic", "client with other keys: {}", run.show());
        }
        let failed = if json { run.reply().map(|x| is_error(&x)).unwrap_or(false) } else { !run.err.is_empty() && run.out.is_empty() };
        if !failed {
            bad!("stranger", "a client with {:?} at a server with {:?} was told {}", other, sec, run.show());
        }
        if run.took < Duration::from_millis(650) {
            bad!("timeout", "with --timeout 0.7 the client gave up after {:?}: {}", run.took, run.show());
        }
        if run.took > Duration::from_millis(3500) && stall.worst_ms() < 500 {
            bad!("timeout", "with --timeout 0.7 the client gave up only after {:?}", run.took);
        }
        let run = srv.client(&[], &["version"], b"");
        if run.out.is_empty() && proto == "tcp" {
            bad!("stranger", "afterwards the right client is told {}", run.show());
        }
        c.distinct(&(sec.a, sec.e, other.a, other.e, proto));
    }
    if srv.ended() || srv.said().contains("panicked") {
        bad!("server", "the server said {:?}", truncate(&srv.said(), 500));
    }
    // keys that are missing or have the wrong length, ciphers that cannot be used
    let bads: &[&[&str]] = &[
        &["-e", "aes128_gcm"],
        &["-a", "sha256"],
        &["-e", "aes128_gcm", "--ekey", "short"],
        &["-e", "aes256_gcm_siv", "--ekey", "0123456789abcdef"],
        &["-e", "aes128_gcm_siv", "--ekey", "0123456789abcdef0123456789abcdef"],
        &["-a", "sha512", "-e", "aes256_gcm", "--akey", "k"],
    ];
    let b = bads[(i as usize) % bads.len()];
    let mut a = strs(&["client"]);
    a.extend(strs(b));
    let json: bool = r.gen();
    if json {
        a.extend(strs(&["-o", "json"]));
    }
    a.extend(strs(&[&srv.addr, "version"]));
    let run1 = run(&a, b"", Duration::from_secs(20));
    let failed = if json { run1.reply().map(|x| is_error(&x)).unwrap_or(false) } else { !run1.err.is_empty() && run1.out.is_empty() };
    if run1.hung || run1.stderr().contains("panicked") || !failed {
        bad!("keys", "{:?}: {}", a, run1.show());
    }
    let mut a = strs(&["server", "127.0.0.1:0"]);
    a.extend(strs(b));
    let run1 = run(&a, b"", Duration::from_secs(6));
    if run1.hung || run1.stderr().contains("panicked") || run1.err.is_empty() {
        bad!("keys", "{:?}: {}", a, run1.show());
    }
    // nobody there
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let json: bool = r.gen();
    let mut a = strs(&["client", "-t", "tcp", "--timeout", "1"]);
    if json {
        a.extend(strs(&["-o", "json"]));
    }
    a.extend(strs(&[&format!("127.0.0.1:{}", port), "version"]));
    let run1 = run(&a, b"", Duration::from_secs(20));
    let failed = if json { run1.reply().map(|x| is_error(&x)).unwrap_or(false) } else { !run1.err.is_empty() && run1.out.is_empty() };
    if run1.hung || run1.stderr().contains("panicked") || !failed {
        bad!("unreachable", "{:?}: {}", a, run1.show());
    }
    Ok(())
}

/// The lifetimes given on the server's command line.
fn lifetimes(c: &Ctx, _i: u64, r: &mut StdRng, trace: &mut Vec<String>, stall: &Stall) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let s = t.path().join("served");
    fs::create_dir_all(&s).unwrap();
    fs::write(s.join("f"), "x").unwrap();
    let sec = Sec::any(r);
    // each long (nothing may happen) or short (it must)
    let pick = |r: &mut StdRng| if r.gen() { ("1.5", true) } else { ("500", false) };
    let (f, p, d) = (pick(r), pick(r), pick(r));
    let more = strs(&["--cleanup-interval", "0.1", "--untouched-file-ttl", f.0, "--untouched-proc-ttl", p.0, "--dead-proc-ttl", d.0]);
    let srv = Served::start(&s, &t.path().join("log"), "tcp", &sec, false, &more).map_err(|e| ("server", e))?;
    trace.push(format!("{:?}", more));
    stall.reset();
    let opened = Instant::now();
    let rd = srv.client(&[], &["read-file", "f"], b"");
    if rd.out != b"x" {
        bad!("output", "read-file gave {}", rd.show());
    }
    let start = serde_json::to_string(&Content::from(Request::ExecProc(request::ExecProcArgs {
        command: crate::proc::exe(),
        args: strs(&["child", "sleep", "60000"]),
        stdin: false,
        stdout: false,
        stderr: false,
        current_dir: None,
    }))).unwrap();
    let pid = match srv.client(&[], &["raw", &start], b"").reply() {
        Ok(Reply::ProcStarted(a)) => a.id,
        x => bad!("outcome", "raw exec gave {:?}", x),
    };
    // one that has ended, and of which the server has said so
    let raw = |q: Request| srv.client(&[], &["raw", &serde_json::to_string(&Content::from(q)).unwrap()], b"").reply();
    let ended = match raw(Request::ExecProc(request::ExecProcArgs {
        command: crate::proc::exe(),
        args: strs(&["child", "sleep", "0"]),
        stdin: false,
        stdout: false,
        stderr: false,
        current_dir: None,
    })) {
        Ok(Reply::ProcStarted(a)) => a.id,
        x => bad!("outcome", "raw exec gave {:?}", x),
    };
    let status = || raw(Request::ReadProcStatus(request::ReadProcStatusArgs { id: ended }));
    let mut told = None;
    while told.is_none() && opened.elapsed() < Duration::from_millis(1300) {
        match status() {
            Ok(Reply::ProcStatus(a)) if !a.is_alive => told = Some(Instant::now()),
            Ok(Reply::ProcStatus(_)) => std::thread::sleep(Duration::from_millis(20)),
            x if opened.elapsed() < Duration::from_millis(1400) => bad!("lifetime", "the status of a process just started gave {:?}", x),
            _ => break,
        }
    }
    if let Some(t) = told {
        let run = status();
        let ok = matches!(&run, Ok(Reply::ProcStatus(a)) if !a.is_alive && a.exit_code == Some(0));
        if t.elapsed() < Duration::from_millis(1400) && !ok {
            bad!("lifetime", "{:?} after it was known to have ended, the status of a process gave {:?}", t.elapsed(), run);
        }
    }
    // within the lifetime
    let run = srv.client(&[], &["mv-file", "f", "f2"], b"");
    if opened.elapsed() < Duration::from_millis(1400) && !run.out.is_empty() {
        bad!("lifetime", "a file read {:?} ago was moved although it is open", opened.elapsed());
    }
    let alive = crate::proc::running(pid);
    if opened.elapsed() < Duration::from_millis(1400) && !alive {
        bad!("lifetime", "a process started less than {:?} ago is gone", opened.elapsed());
    }
    std::thread::sleep(Duration::from_millis(3500));
    if stall.worst_ms() > 500 {
        return Err(("lost", String::new()));
    }
    if told.is_some() {
        let run = status();
        let gone = match &run {
            Ok(x) if is_error(x) => true,
            Ok(Reply::ProcStatus(a)) if !a.is_alive => false,
            x => bad!("outcome", "the status of a process that ended gave {:?}", x),
        };
        if gone != d.1 {
            bad!("lifetime", "after 3.5 s with --dead-proc-ttl {} (--untouched-proc-ttl {}) the status of a process that ended gave {:?}", d.0, p.0, run);
        }
        c.count("dead_lifetimes", 1);
    }
    let gone = !crate::proc::running(pid);
    if gone != p.1 {
        bad!("lifetime", "after 3.5 s with --untouched-proc-ttl {} the process is {}", p.0, if gone { "gone" } else { "still there" });
    }
    if s.join("f").exists() {
        let run = srv.client(&[], &["mv-file", "f", "f2"], b"");
        if run.out.is_empty() == f.1 {
            bad!("lifetime", "after 3.5 s with --untouched-file-ttl {} moving the file gave {}", f.0, run.show());
        }
    }
    if !gone {
        let kill = serde_json::to_string(&Content::from(Request::KillProc(request::KillProcArgs { id: pid }))).unwrap();
        let _ = srv.client(&[], &["raw", &kill], b"");
    }
    c.count("lifetimes", 1);
    c.distinct(&(f.0, p.0, d.0));
    Ok(())
}

/// Values of options that make no sense, and some that are merely unusual.
fn oddities(c: &Ctx) -> Result<(), Bad> {
    let t = tempfile::tempdir().unwrap();
    let none = Sec { a: "none", e: "none", akey: String::new(), ekey: String::new() };
    let srv = Served::start(t.path(), &t.path().join("log"), "tcp", &none, false, &[]).map_err(|e| ("server", e))?;
    let limit = Duration::from_secs(20);
    let durations = ["-1", "-0.001", "nan", "inf", "-inf", "1e30", "1e400", "abc", "", "1s", "0x10"];
    let sizes = ["0", "-1", "18446744073709551615", "99999999999999999999", "1.5", "", "x"];
    let refused = |a: &[String]| -> Result<(), Bad> {
        c.count("odd_options", 1);
        let x = run(a, b"", limit);
        let failed = !x.err.is_empty() && x.out.is_empty() || x.reply().map(|r| is_error(&r)).unwrap_or(false);
        if x.hung || x.stderr().contains("panicked") || !failed {
            bad!("odd", "{:?}: {}", a, x.show());
        }
        Ok(())
    };
    let each = |names: &[&str], values: &[&str]| -> Vec<String> { names.iter().flat_map(|n| values.iter().map(move |v| format!("--{}={}", n, v))).collect() };
    let mut odd = each(&["timeout", "packet-ttl"], &durations);
    odd.extend(each(&["internal-buffer-size"], &sizes));
    for (k, o) in odd.iter().enumerate() {
        let mut a = strs(&["client", "-t", if k % 3 == 0 { "udp" } else { "tcp" }, o]);
        if k % 2 == 0 {
            a.extend(strs(&["-o", "json"]));
        }
        a.extend(strs(&[&srv.addr, "version"]));
        refused(&a)?;
    }
    for o in each(&["cleanup-interval", "untouched-file-ttl", "untouched-proc-ttl", "dead-proc-ttl"], &durations).iter().chain(&odd) {
        refused(&strs(&["server", "127.0.0.1:0", "-t", "tcp", o]))?;
    }
    for a in &["127.0.0.1", "127.0.0.1:99999", "nonsense", "", ":0", "[::1:0", "localhost:0"] {
        refused(&strs(&["server", a]))?;
        if *a != "localhost:0" {
            refused(&strs(&["client", "--timeout=0.5", a, "version"]))?;
        }
    }
    refused(&strs(&["server", "127.0.0.1:0", "--working-dir", &t.path().join("missing").display().to_string()]))?;
    // however long
    for d in &["60", "31536001", "1e9", "1e11", "1e15", "1e19"] {
        for n in &["timeout", "packet-ttl"] {
            c.count("odd_options", 1);
            let o = format!("--{}={}", n, d);
            let x = srv.client(&[&o], &["version"], b"");
            if x.hung || x.stdout().trim() != "0.1.0-alpha.2" || !x.err.is_empty() {
                bad!("odd", "version with {}: {}", o, x.show());
            }
        }
        let more: Vec<String> = each(&["cleanup-interval", "untouched-file-ttl", "untouched-proc-ttl", "dead-proc-ttl", "packet-ttl", "timeout"], &[d]);
        let mut other = Served::start(t.path(), &t.path().join("log2"), "tcp", &none, false, &more).map_err(|e| ("odd", e))?;
        let x = other.client(&[], &["ls-root-dir"], b"");
        if other.ended() || other.said().contains("panicked") || !x.stdout().contains("log2") {
            bad!("odd", "a server with {:?} said {:?} and listed {}", more, truncate(&other.said(), 400), x.show());
        }
        c.count("odd_options", more.len() as u64);
    }
    // a name instead of an address, and the shortest way to say it
    let port = srv.addr.rsplit(':').next().unwrap();
    for b in &["1", "2"] {
        let x = run(&strs(&["client", "-t", "tcp", "--internal-buffer-size", b, &format!("localhost:{}", port), "version"]), b"", limit);
        if x.stdout().trim() != "0.1.0-alpha.2" {
            bad!("odd", "version from localhost: {}", x.show());
        }
    }
    for json in &[false, true] {
        let x = srv.client(if *json { &["-o", "json"] } else { &[] }, &["internal-debug"], b"");
        let ok = if *json { matches!(x.reply(), Ok(Reply::InternalDebug(ref a)) if !a.output.is_empty()) } else { !x.out.is_empty() && x.err.is_empty() };
        if !ok {
            bad!("odd", "internal-debug gave {}", x.show());
        }
    }
    if srv.said().contains("panicked") {
        bad!("odd", "the server said {:?}", truncate(&srv.said(), 500));
    }
    Ok(())
}

/// `schema list` and `schema info` for each type listed.
fn schemas(c: &Ctx) -> Result<(), Bad> {
    let run1 = run(&strs(&["schema", "list"]), b"", Duration::from_secs(20));
    let list: Vec<String> = run1.stdout().lines().map(|x| x.to_string()).collect();
    if list.len() < 10 || !run1.err.is_empty() {
        bad!("schema", "schema list: {}", run1.show());
    }
    for t in list {
        let run1 = run(&strs(&["schema", "info", &t]), b"", Duration::from_secs(20));
        if serde_json::from_slice::<Value>(&run1.out).is_err() || !run1.err.is_empty() {
            bad!("schema", "schema info {}: {}", t, run1.show());
        }
        c.count("schemas", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C10: no descriptors left
fn fds_of(pid: u32) -> u64 {
    fs::read_dir(format!("/proc/{}/fd", pid)).map(|d| d.count() as u64).unwrap_or(0)
}
/// A server out of descriptors goes on serving whoever is connected, and takes
/// new connections as soon as there are descriptors again.
pub fn starved(c: &Ctx) {
    let mut r = c.rng("starved", 0);
    let stall = Stall::start();
    let none = Sec { a: "none", e: "none", akey: String::new(), ekey: String::new() };
    for round in 0..c.pick(2, 6) {
        let t = tempfile::tempdir().unwrap();
        fs::write(t.path().join("f"), "text").unwrap();
        let srv = match Served::start(t.path(), &t.path().join("log"), "tcp", &none, round % 2 == 1, &[]) {
            Ok(s) => s,
            Err(_) => return c.inconclusive("server did not start"),
        };
        let pid = srv.child.id();
        let mut rt = runtime(2);
        let addr: std::net::SocketAddr = srv.addr.parse().unwrap();
        let (auth, crypt) = (crate::kinds::make_auth(crate::kinds::AuthKind::Noop, &[]), crate::kinds::make_crypt(crate::kinds::CryptKind::Noop, &[0; 64]));
        let mut a = match rt.block_on(connect(Proto::Tcp, addr, &auth, &crypt)) {
            Ok(a) => a,
            Err(_) => return c.inconclusive("client did not connect"),
        };
        a.timeout = Duration::from_secs(20);
        let path = t.path().join("f").display().to_string();
        let open = Request::OpenFile(request::OpenFileArgs { path, create_if_missing: false, write_access: false, read_access: true });
        for _ in 0..2 {
            stall.reset();
            if rt.block_on(a.ask(Request::Heartbeat)).is_err() {
                return c.inconclusive("client is not answered at first");
            }
            let room = r.gen_range(1, 12);
            let lim = libc::rlimit { rlim_cur: fds_of(pid) + room, rlim_max: 4096 };
            if unsafe { libc::prlimit(pid as i32, libc::RLIMIT_NOFILE, &lim, std::ptr::null_mut()) } != 0 {
                return c.inconclusive("limit not set");
            }
            let peers: Vec<_> = (0..room + r.gen_range(10, 60)).filter_map(|_| std::net::TcpStream::connect_timeout(&addr, Duration::from_secs(5)).ok()).collect();
            std::thread::sleep(Duration::from_millis(300));
            let full = fds_of(pid) + 1 >= lim.rlim_cur;
            c.count("rounds_without_descriptors", full as u64);
            for k in 0..6 {
                let q = match k % 3 {
                    0 => Request::Heartbeat,
                    1 => open.clone(),
                    _ => Request::ExecProc(request::ExecProcArgs { command: crate::proc::exe(), args: strs(&["child", "exit", "0"]), stdin: true, stdout: true, stderr: true, current_dir: None }),
                };
                if let Err(e) = rt.block_on(a.ask(q.clone())) {
                    let ended = matches!(e, over_there::core::AskError::Failure { .. });
                    if !ended && stall.worst_ms() < 1500 {
                        c.violation("unanswered-without-descriptors", &format!("with no descriptors left in the server, a connected client's {:?} gave {:?}", q, e), json!({"round": round}));
                        return;
                    }
                }
            }
            drop(peers);
            // it may take the server a moment to notice
            let fresh = eventually(Duration::from_secs(20), || {
                rt.block_on(async {
                    match connect(Proto::Tcp, addr, &auth, &crypt).await {
                        Ok(mut b) => {
                            b.timeout = Duration::from_secs(3);
                            b.ask(Request::Heartbeat).await.is_ok()
                        }
                        Err(_) => false,
                    }
                })
            });
            c.eval();
            c.distinct(&("starved", round, room));
            if !fresh && stall.worst_ms() < 1500 {
                c.violation("refuses-after-descriptors-ran-out", "after the server ran out of descriptors for a moment, new clients are not answered any more", json!({"round": round, "room": room}));
                return;
            }
        }
        rt.shutdown_timeout(Duration::from_millis(50));
    }
}

pub fn c23(ctx: &Ctx) -> i32 {
    ctx.eval();
    if let Err((class, what)) = schemas(ctx).and_then(|_| oddities(ctx)) {
        ctx.violation(class, &what, json!({}));
    }
    let stall = Stall::start();
    let c = ctx.clone();
    par_cases_on(ctx, num_threads(), ctx.pick(96, 1200), Duration::from_secs(ctx.pick(120, 2400)), move |i| {
        let go = |n: u64| -> (Result<(), Bad>, Vec<String>) {
            let mut r = c.rng("cli", i);
            let mut trace = vec![];
            let _ = n;
            let res = match i % 8 {
                0..=2 => history(&c, i, &mut r, &mut trace),
                3 | 4 => execs(&c, i, &mut r, &mut trace),
                5 => raws(&c, i, &mut r, &mut trace),
                6 => refusals(&c, i, &mut r, &mut trace, &stall),
                _ => lifetimes(&c, i, &mut r, &mut trace, &stall),
            };
            (res, trace)
        };
        c.eval();
        match go(0) {
            (Ok(()), t) => c.sample(json!({"case": i, "steps": t.iter().take(6).map(|x| truncate(x, 300)).collect::<Vec<_>>()})),
            (Err(("lost", _)), _) => c.inconclusive("a datagram was lost or the machine stalled"),
            (Err((class, what)), t) => match (class, go(1)) {
                // once more, with the same choices
                (_, (Err((c2, w2)), t2)) if c2 != "lost" => c.violation(c2, &w2, json!({"case": i, "first": what, "trace": t2, "first_trace": t})),
                ("stranger", _) | ("effect", _) => c.violation(class, &what, json!({"case": i, "trace": t})),
                _ => {
                    eprintln!("case {} seen once: {} {}", i, class, what);
                    c.inconclusive("seen once only")
                }
            },
        }
    });
    ctx.finish(
        "the program's own client and server processes: histories of file and directory commands compared with the same operations done with std on a mirror (result, output, tree), executions whose output, input and end are compared byte for byte, raw sessions, clients with other or unusable keys, timeouts and lifetimes given on the command line; human and JSON output, redirections, TCP and UDP, IPv4 and IPv6; distinct by command or case parameters",
        20,
        &["UDP histories in which a datagram was lost are dropped", "paths that end in symlinks are only listed; the file system errors of root"],
    )
}
