//! Further monitors of files and directories: trees full of symlinks, hard
//! links and other things (C13, C22), big files (C12), big listings (C22).
use crate::common::*;
use crate::fs::{self, Obs, Op};
use crate::proc::Desk;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Thing {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
    Other,
}
type Snap = BTreeMap<PathBuf, (u64, Thing)>;

fn snap(dir: &Path, out: &mut Snap) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let m = match std::fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => continue };
        let t = m.file_type();
        let thing = if t.is_dir() {
            Thing::Dir
        } else if t.is_file() {
            Thing::File(std::fs::read(&p).unwrap_or_default())
        } else if t.is_symlink() {
            Thing::Link(std::fs::read_link(&p).unwrap_or_default())
        } else {
            Thing::Other
        };
        out.insert(p.clone(), (m.ino(), thing));
        if t.is_dir() {
            snap(&p, out);
        }
    }
}

/// The physical path of `p`, its last component not followed; what does not
/// exist yet hangs below what does.
fn nofollow(p: &Path) -> PathBuf {
    let (dir, name) = match (p.parent(), p.file_name()) {
        (Some(d), Some(n)) => (d, n),
        _ => return std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf()),
    };
    match std::fs::canonicalize(dir) {
        Ok(d) => d.join(name),
        Err(_) => nofollow(dir).join(name),
    }
}
/// Everything `p` may stand for: the name itself, and what it leads to.
fn meant(p: &str) -> Vec<PathBuf> {
    let p = Path::new(p);
    let mut v = vec![nofollow(p)];
    if let Ok(c) = std::fs::canonicalize(p) {
        v.push(c);
    }
    // links that lead nowhere (yet)
    let mut at = v[0].clone();
    for _ in 0..10 {
        match std::fs::read_link(&at) {
            Ok(t) => {
                at = nofollow(&at.parent().unwrap_or(&at).join(t));
                v.push(at.clone());
            }
            Err(_) => break,
        }
    }
    v
}

#[derive(Clone, Debug)]
struct OpenFile {
    id: u32,
    sig: u32,
    ino: u64,
    path: PathBuf,
}

pub fn links(c: &Ctx, i: u64) {
    let mut r = c.rng("links", i);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let tops = [root.join("inside"), root.join("outside")];
    for t in &tops {
        std::fs::create_dir(t).unwrap();
        std::fs::write(t.join("f"), t.display().to_string()).unwrap();
    }
    plant(&mut r, &tops, 14);
    let mut open: Vec<OpenFile> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut tags: Vec<(u8, bool)> = vec![];
    let (mut done, mut through, mut listed) = (0u64, 0u64, 0u64);
    let prop = c.prop().to_string();
    let res = (|| -> Result<(), (&'static str, String)> {
        for _ in 0..r.gen_range(50, 140) {
            if c.done() {
                break;
            }
            if r.gen_bool(0.1) {
                plant(&mut r, &tops, 2);
            }
            let (a, b) = (pick(&mut r, &tops), pick(&mut r, &tops));
            let h = open.choose(&mut r).cloned();
            let op = match (r.gen_range(0, 16), &h) {
                (0..=3, _) => Op::Open { path: a.clone(), create: r.gen_bool(0.3), write: true, read: r.gen() },
                (4, Some(h)) => Op::Close { id: h.id, sig: h.sig },
                (5, Some(h)) => Op::Rename { id: h.id, sig: h.sig, to: b.clone() },
                (6, Some(h)) if r.gen_bool(0.4) => Op::Remove { id: h.id, sig: h.sig },
                (7, Some(h)) => Op::Write { id: h.id, sig: h.sig, data: payload(&mut r, 20) },
                (8, _) => Op::RemoveUnopened { path: a.clone() },
                (9, _) => Op::RenameUnopened { from: a.clone(), to: b.clone() },
                (10, _) => Op::RenameDir { from: a.clone(), to: b.clone() },
                (11..=12, _) => Op::RemoveDir { path: a.clone(), all: r.gen_bool(0.7) },
                (13, _) => Op::CreateDir { path: a.clone(), all: r.gen() },
                _ => Op::List { path: a.clone() },
            };
            let paths: Vec<&String> = match &op {
                Op::Open { path, .. } | Op::RemoveUnopened { path } | Op::RemoveDir { path, .. } | Op::CreateDir { path, .. } | Op::List { path } => vec![path],
                Op::RenameUnopened { from, to } | Op::RenameDir { from, to } => vec![from, to],
                Op::Rename { to, .. } => vec![to],
                _ => vec![],
            };
            // what is never asked for: pipes and directories as files, the
            // scratch directories themselves
            if paths.iter().any(|p| std::fs::canonicalize(p).map(|x| x == root || tops.contains(&x)).unwrap_or(false)) && !matches!(op, Op::List { .. }) {
                continue;
            }
            if let Op::Open { path, .. } = &op {
                if std::fs::metadata(path).map(|m| !m.is_file()).unwrap_or(false) {
                    continue;
                }
            }
            let mut before = Snap::new();
            snap(&root, &mut before);
            let mut allowed: Vec<PathBuf> = paths.iter().flat_map(|p| meant(p)).collect();
            let target: Option<PathBuf> = match &op {
                Op::Close { .. } | Op::Write { .. } | Op::Remove { .. } | Op::Rename { .. } => h.as_ref().map(|h| h.path.clone()),
                _ => None,
            };
            allowed.extend(target.iter().cloned());
            let from: Vec<PathBuf> = match &op {
                Op::RenameUnopened { from, .. } | Op::RenameDir { from, .. } => meant(from),
                Op::Rename { .. } => target.iter().cloned().collect(),
                _ => vec![],
            };
            let dests: Vec<PathBuf> = match &op {
                Op::RenameUnopened { to, .. } | Op::RenameDir { to, .. } | Op::Rename { to, .. } => meant(to),
                _ => vec![],
            };
            let link = paths.iter().any(|p| std::fs::canonicalize(p).map(|x| x != **p).unwrap_or(false));
            let obs = d.raw(&mut r, fs::to_request(&op)).map(fs::from_reply).map_err(|e| ("no-answer", format!("{:?} was not answered: {:?}", op, e)))?;
            trace.push(truncate(&format!("{:?} -> {:?}", op, obs), 300));
            let mut after = Snap::new();
            snap(&root, &mut after);
            let refused = matches!(obs, Obs::Io(_) | Obs::SigChanged { .. } | Obs::Other(_));
            let before_open = open.clone();
            let acted: Option<u32> = match &op {
                Op::Close { id, .. } | Op::Rename { id, .. } | Op::Remove { id, .. } | Op::Write { id, .. } => Some(*id),
                _ => None,
            };
            if let Op::Open { path, .. } = &op {
                allowed.extend(std::fs::canonicalize(path).ok());
            }
            // what changed
            let all: std::collections::BTreeSet<&PathBuf> = before.keys().chain(after.keys()).collect();
            let changed: Vec<&PathBuf> = all.into_iter().filter(|p| before.get(*p) != after.get(*p)).collect();
            let making = matches!(&op, Op::CreateDir { all: true, .. });
            for p in &changed {
                let p: &Path = p;
                let made_dir = before.get(p).is_none() && matches!(after.get(p), Some((_, Thing::Dir)));
                if refused && !(making && made_dir) {
                    return Err(("disk", format!("{:?} gave {:?} but changed {}", op, obs, p.display())));
                }
                let below = allowed.iter().any(|a| p.starts_with(a));
                let above = making && made_dir && allowed.iter().any(|a| a.starts_with(p));
                let same_inode = matches!(op, Op::Write { .. }) && h.as_ref().map(|h| before.get(p).map(|x| x.0) == Some(h.ino)).unwrap_or(false);
                if !below && !above && !same_inode {
                    return Err(("disk", format!("{:?} gave {:?} and changed {}, which is neither at nor below what it was asked for ({:?})", op, obs, p.display(), allowed)));
                }
            }
            // open files are where they were
            for o in &before_open {
                if Some(o.id) == acted && !refused {
                    continue;
                }
                match after.get(&o.path) {
                    Some((ino, Thing::File(_))) if *ino == o.ino => {}
                    x => return Err(("protect", format!("after {:?} gave {:?}, open file {} is no longer at {} ({:?})", op, truncate(&format!("{:?}", obs), 100), o.id, o.path.display(), x.map(|x| x.0)))),
                }
                if before.get(&o.path) != after.get(&o.path) && !matches!(op, Op::Write { .. }) {
                    return Err(("protect", format!("after {:?}, open file {} at {} has other contents", op, o.id, o.path.display())));
                }
            }
            if refused {
                tags.push((kind(&op), true));
                continue;
            }
            done += 1;
            through += link as u64;
            tags.push((kind(&op), false));
            match (&op, &obs) {
                (Op::Open { path, .. }, Obs::Opened { id, sig, .. }) => {
                    let p = match std::fs::canonicalize(path) { Ok(p) => p, Err(e) => return Err(("identity", format!("{:?} gave {:?} but the path leads nowhere: {}", op, obs, e))) };
                    let ino = std::fs::metadata(&p).map(|m| m.ino()).unwrap_or(0);
                    let other = open.iter().any(|o| o.id == *id && o.path != p);
                    match open.iter_mut().find(|o| o.path == p) {
                        Some(o) if o.id == *id => o.sig = *sig,
                        Some(o) => return Err(("identity", format!("{} is open as {} but {:?} gave {}", p.display(), o.id, op, id))),
                        None if other => return Err(("identity", format!("{:?} gave {}, which is open at another path", op, id))),
                        None => open.push(OpenFile { id: *id, sig: *sig, ino, path: p }),
                    }
                }
                (Op::Close { id, .. }, Obs::Closed { .. }) => open.retain(|o| o.id != *id),
                (Op::Remove { id, .. }, Obs::Removed { .. }) => {
                    if target.as_ref().map(|t| after.contains_key(t)).unwrap_or(false) {
                        return Err(("disk", format!("{:?} gave {:?} but the file is still there", op, obs)));
                    }
                    open.retain(|o| o.id != *id);
                }
                (Op::Write { id, data, .. }, Obs::Written { sig, .. }) => {
                    let o = open.iter_mut().find(|o| o.id == *id).unwrap();
                    o.sig = *sig;
                    if after.get(&o.path).map(|x| &x.1) != Some(&Thing::File(data.clone())) {
                        return Err(("disk", format!("{:?} succeeded but {} does not hold the data", truncate(&format!("{:?}", op), 100), o.path.display())));
                    }
                }
                (Op::Rename { id, .. }, Obs::Renamed { sig, .. }) => {
                    let ino = h.as_ref().unwrap().ino;
                    match dests.iter().find(|p| after.get(*p).map(|x| x.0) == Some(ino)) {
                        Some(p) => {
                            let o = open.iter_mut().find(|o| o.id == *id).unwrap();
                            o.sig = *sig;
                            o.path = p.clone();
                        }
                        None => return Err(("disk", format!("{:?} gave {:?} but the file is not there", op, obs))),
                    }
                }
                (Op::RenameUnopened { .. }, Obs::UnRenamed { .. }) | (Op::RenameDir { .. }, Obs::DirRenamed { .. }) => {
                    let inos: Vec<u64> = from.iter().filter_map(|p| before.get(p).map(|x| x.0)).collect();
                    if !dests.iter().any(|p| after.get(p).map(|x| inos.contains(&x.0)).unwrap_or(false)) {
                        return Err(("dir", format!("{:?} gave {:?} but nothing of what it named is there now", op, obs)));
                    }
                }
                (Op::RemoveUnopened { path }, Obs::UnRemoved { .. }) | (Op::RemoveDir { path, .. }, Obs::DirRemoved { .. }) => {
                    if meant_gone(&before, &after, &allowed) {
                        // something it named went away
                    } else {
                        return Err(("dir", format!("{:?} of {} succeeded but nothing it named is gone", op, path)));
                    }
                }
                (Op::CreateDir { path, .. }, Obs::DirCreated { .. }) => {
                    if !Path::new(path).is_dir() {
                        return Err(("dir", format!("{:?} gave {:?} but there is no directory", op, obs)));
                    }
                }
                (Op::List { path }, Obs::Listing { entries, .. }) => {
                    listed += entries.len() as u64;
                    listing_is(path, entries).map_err(|e| ("dir", e))?;
                }
                x => return Err(("dir", format!("{:?}", x))),
            }
            // an open file has one descriptor, of its inode
            let mut fds: Vec<u64> = vec![];
            for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
                if std::fs::read_link(e.path()).map(|t| t.starts_with(&root)).unwrap_or(false) {
                    fds.extend(std::fs::metadata(e.path()).map(|m| m.ino()).ok());
                }
            }
            let mut want: Vec<u64> = open.iter().map(|o| o.ino).collect();
            want.sort();
            fds.sort();
            if fds != want && !crate::rig::eventually(Duration::from_secs(5), || fs::fds_below(&root).len() == want.len()) {
                return Err(("fd", format!("open files have inodes {:?} but the descriptors lead to {:?}", want, fds)));
            }
        }
        Ok(())
    })();
    c.eval();
    c.count("requests", d.asked);
    c.count("among_links_succeeded", done);
    c.count("through_links_succeeded", through);
    c.count("entries_listed", listed);
    if done >= 10 {
        c.distinct(&("links", &tags));
    }
    d.close();
    if let Err((class, m)) = res {
        if fs::decides(&prop, class) {
            c.violation(&format!("links-{}", class), &m, json!({"case": i, "last_requests": trace.iter().rev().take(30).rev().collect::<Vec<_>>()}));
        } else {
            c.count("ended_by_another_property", 1);
        }
    }
}

fn meant_gone(before: &Snap, after: &Snap, allowed: &[PathBuf]) -> bool {
    allowed.iter().any(|p| before.contains_key(p) && !after.contains_key(p))
}

fn kind(op: &Op) -> u8 {
    match op {
        Op::Open { .. } => 0,
        Op::Close { .. } => 1,
        Op::Read { .. } => 2,
        Op::Write { .. } => 3,
        Op::Rename { .. } => 4,
        Op::Remove { .. } => 5,
        Op::RenameUnopened { .. } => 6,
        Op::RemoveUnopened { .. } => 7,
        Op::CreateDir { .. } => 8,
        Op::RenameDir { .. } => 9,
        Op::RemoveDir { .. } => 10,
        Op::List { .. } => 11,
    }
}

/// A listing against the directory: every entry once, under its name, as what
/// it is (links are not followed).
fn listing_is(path: &str, entries: &[(String, bool, bool, bool)]) -> Result<(), String> {
    let mut got: Vec<(Vec<u8>, bool, bool, bool)> = vec![];
    let dir = std::fs::canonicalize(path).map_err(|e| format!("{} was listed but: {}", path, e))?;
    for e in entries {
        let p = Path::new(&e.0);
        let name = match p.file_name() { Some(n) => n, None => return Err(format!("listing {} gave {:?}", path, e)) };
        if p.parent().and_then(|d| std::fs::canonicalize(d).ok()).as_ref() != Some(&dir) {
            return Err(format!("listing {} gave {:?}, which is not in that directory", path, e));
        }
        got.push((name.as_bytes().to_vec(), e.1, e.2, e.3));
    }
    let mut want: Vec<(Vec<u8>, bool, bool, bool)> = vec![];
    for e in std::fs::read_dir(&dir).map_err(|e| format!("{} was listed but: {}", path, e))?.flatten() {
        let t = e.file_type().map_err(|e| e.to_string())?;
        want.push((e.file_name().as_bytes().to_vec(), t.is_file(), t.is_dir(), t.is_symlink()));
    }
    got.sort();
    want.sort();
    if got == want {
        return Ok(());
    }
    let show = |v: &(Vec<u8>, bool, bool, bool)| format!("{:?} (file {}, directory {}, link {})", String::from_utf8_lossy(&v.0), v.1, v.2, v.3);
    let odd = got.iter().find(|x| !want.contains(x)).map(|x| format!("gave {}", show(x)));
    let lost = want.iter().find(|x| !got.contains(x)).map(|x| format!("lacked {}", show(x)));
    Err(format!("listing {} ({} entries for {}): {}, {}", path, got.len(), want.len(), odd.unwrap_or_default(), lost.unwrap_or_default()))
}

/// Adds things to the tree.
fn plant(r: &mut StdRng, tops: &[PathBuf], n: usize) {
    for _ in 0..n {
        let mut dirs: Vec<PathBuf> = tops.to_vec();
        let mut s = Snap::new();
        for t in tops {
            snap(t, &mut s);
        }
        dirs.extend(s.iter().filter(|x| x.1 .1 == Thing::Dir).map(|x| x.0.clone()));
        let things: Vec<PathBuf> = s.keys().cloned().collect();
        let d = dirs.choose(r).unwrap().clone();
        if !d.is_dir() {
            let _ = std::fs::create_dir_all(&d);
        }
        let at = d.join(name(r));
        if std::fs::symlink_metadata(&at).is_ok() {
            continue;
        }
        let some = things.choose(r).cloned().unwrap_or_else(|| tops[0].join("f"));
        let _ = match r.gen_range(0, 12) {
            0..=2 => std::fs::create_dir(&at),
            3..=5 => std::fs::write(&at, payload(r, 12)),
            6..=7 => std::os::unix::fs::symlink(&some, &at),
            8 => {
                // relative, perhaps to nothing, perhaps to itself
                let t = *["f", "..", "../f", "nothing", "d", ".", "./f", "l"].choose(r).unwrap();
                std::os::unix::fs::symlink(t, &at)
            }
            9 => std::fs::hard_link(&some, &at),
            10 => {
                let p = std::ffi::CString::new(at.as_os_str().as_bytes()).unwrap();
                unsafe { libc::mkfifo(p.as_ptr(), 0o600) };
                Ok(())
            }
            _ => std::os::unix::net::UnixListener::bind(&at).map(|_| ()),
        };
    }
}
fn name(r: &mut StdRng) -> &'static str {
    *["d", "e", "f", "g", "l", "m", "..x", ".h", "\u{e9} \u{1F980}", "a\nb"].choose(r).unwrap()
}
fn pick(r: &mut StdRng, tops: &[PathBuf]) -> String {
    let mut s = Snap::new();
    for t in tops {
        snap(t, &mut s);
    }
    let mut things: Vec<PathBuf> = s.keys().cloned().collect();
    things.extend(tops.iter().cloned());
    let p = things.choose(r).unwrap().clone();
    let p = match r.gen_range(0, 10) {
        0..=4 => p,
        5..=7 => p.join(name(r)),
        8 => p.join(name(r)).join(name(r)),
        _ => {
            if p.is_dir() { p.join(".") } else { p }
        }
    };
    p.display().to_string()
}

/// Directories with thousands of entries of every kind.
pub fn wide(c: &Ctx, i: u64) {
    let mut r = c.rng("wide", i);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let n = *[0usize, 1, 127, 128, 1023, 1025, 4000].choose(&mut r).unwrap() + r.gen_range(0, 3);
    for k in 0..n {
        let p = root.join(format!("{}{}", ["", ".", "..", "\u{e9}", " ", "-"][k % 6], k));
        let _ = match r.gen_range(0, 12) {
            0 => std::fs::create_dir(&p),
            1 => std::os::unix::fs::symlink(root.join("nothing"), &p),
            2 => std::os::unix::fs::symlink(".", &p),
            3 => std::os::unix::net::UnixListener::bind(&p).map(|_| ()),
            _ => std::fs::write(&p, b""),
        };
    }
    let path = match r.gen_range(0, 3) {
        0 => format!("{}/", root.display()),
        1 => format!("{}/.", root.display()),
        _ => root.display().to_string(),
    };
    let got = d.raw(&mut r, fs::to_request(&Op::List { path: path.clone() })).map(fs::from_reply);
    c.eval();
    c.count("entries_listed", n as u64);
    c.distinct(&("wide", n, &path.len()));
    d.close();
    let bad = match got {
        Ok(Obs::Listing { entries, .. }) => listing_is(&path, &entries).err(),
        x => Some(format!("listing {} entries gave {}", n, truncate(&format!("{:?}", x), 200))),
    };
    if let Some(m) = bad {
        c.violation("listing", &m, json!({"case": i, "entries": n}));
    }
}

/// Files of several megabytes.
pub fn big(c: &Ctx, i: u64) {
    let mut r = c.rng("big", i);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut d = match Desk::open(&mut r, |_| {}) {
        Some(d) => d,
        None => return c.inconclusive("no server"),
    };
    let path = root.join("big");
    let size = |r: &mut StdRng| {
        let base = *[64 << 10, 1 << 20, (1 << 20) + 1, 2 << 20, 3 << 20, 4 << 20].choose(r).unwrap();
        base - 1 + r.gen_range(0, 3)
    };
    let n = size(&mut r);
    let mut data = payload(&mut r, n);
    std::fs::write(&path, &data).unwrap();
    let mut steps = vec![format!("{} bytes on disk", n)];
    let res = (|| -> Result<(), (&'static str, String)> {
        let na = |x: String| ("no-answer", truncate(&x, 300));
        let (id, mut sig) = match d.raw(&mut r, fs::to_request(&Op::Open { path: path.display().to_string(), create: false, write: true, read: true })).map(fs::from_reply) {
            Ok(Obs::Opened { id, sig, .. }) => (id, sig),
            x => return Err(na(format!("opening gave {:?}", x))),
        };
        for _ in 0..3 {
            match d.raw(&mut r, fs::to_request(&Op::Read { id, sig })).map(fs::from_reply) {
                Ok(Obs::Contents { data: got, .. }) if got == data => {}
                Ok(Obs::Contents { data: got, .. }) => {
                    let at = got.iter().zip(&data).position(|x| x.0 != x.1);
                    return Err(("content", format!("reading a file of {} bytes gave {}, which differ from byte {:?}", data.len(), got.len(), at)));
                }
                x => return Err(na(format!("reading {} bytes gave {:?}", data.len(), x))),
            }
            let n = if r.gen() { size(&mut r) } else { r.gen_range(0, 1000) };
            data = payload(&mut r, n);
            steps.push(format!("write {} bytes", n));
            match d.raw(&mut r, fs::to_request(&Op::Write { id, sig, data: data.clone() })).map(fs::from_reply) {
                Ok(Obs::Written { sig: s, .. }) => sig = s,
                x => return Err(na(format!("writing {} bytes gave {:?}", n, x))),
            }
            let there = std::fs::read(&path).unwrap_or_default();
            if there != data {
                return Err(("content", format!("{} bytes were written but the file holds {} (equal up to {:?})", data.len(), there.len(), there.iter().zip(&data).position(|x| x.0 != x.1))));
            }
        }
        Ok(())
    })();
    c.eval();
    c.count("big_files", 1);
    c.count("big_bytes", data.len() as u64);
    c.distinct(&("big", &steps));
    d.close();
    if let Err((class, m)) = res {
        c.violation(&format!("big-{}", class), &m, json!({"case": i, "steps": steps}));
    }
}
