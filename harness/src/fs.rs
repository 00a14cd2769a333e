//! Monitors of remote files and directories (C11 – C14, C22): histories of
//! real requests against a real server and scratch directory, checked step by
//! step against a model of what a file server does; racing requests (batches)
//! are checked for the existence of a sequential explanation.
use crate::common::*;
use crate::kinds::*;
use crate::rig::*;
use over_there::core::{
    reply, request, AskError, ConnectedClient, FileAskError, LazilyTransformedRequest, RemoteFile, Reply, ReplyError, Request,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::path::{Path, PathBuf};
use std::time::Duration;

// ------------------------------------------------------------------ the model
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Open {
    pub sig: u32,
    pub path: PathBuf,
    pub read: bool,
    pub write: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    /// absolute canonical path -> node (the root itself is not listed)
    pub tree: BTreeMap<PathBuf, Node>,
    pub open: BTreeMap<u32, Open>,
    /// ids of files closed or removed since; never handed out again
    pub gone: BTreeSet<u32>,
    pub root: PathBuf,
    /// the symlink in the root, and the directory it leads to
    pub link: PathBuf,
    pub real: PathBuf,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Open { path: String, create: bool, write: bool, read: bool },
    Close { id: u32, sig: u32 },
    Read { id: u32, sig: u32 },
    Write { id: u32, sig: u32, data: Vec<u8> },
    Rename { id: u32, sig: u32, to: String },
    Remove { id: u32, sig: u32 },
    RenameUnopened { from: String, to: String },
    RemoveUnopened { path: String },
    CreateDir { path: String, all: bool },
    RenameDir { from: String, to: String },
    RemoveDir { path: String, all: bool },
    List { path: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Opened { id: u32, sig: u32, path: String, read: bool, write: bool },
    Closed { id: u32 },
    Contents { id: u32, data: Vec<u8> },
    Written { id: u32, sig: u32 },
    Renamed { id: u32, sig: u32 },
    Removed { id: u32, sig: u32 },
    UnRenamed { from: String, to: String },
    UnRemoved { path: String },
    DirCreated { path: String },
    DirRenamed { from: String, to: String },
    DirRemoved { path: String },
    Listing { path: String, entries: Vec<(String, bool, bool, bool)> },
    SigChanged { id: u32, sig: Option<u32> },
    Io(io::ErrorKind),
    Other(String),
}

pub fn to_request(op: &Op) -> Request {
    match op.clone() {
        Op::Open { path, create, write, read } => Request::OpenFile(request::OpenFileArgs { path, create_if_missing: create, write_access: write, read_access: read }),
        Op::Close { id, sig } => Request::CloseFile(request::CloseFileArgs { id, sig }),
        Op::Read { id, sig } => Request::ReadFile(request::ReadFileArgs { id, sig }),
        Op::Write { id, sig, data } => Request::WriteFile(request::WriteFileArgs { id, sig, contents: data }),
        Op::Rename { id, sig, to } => Request::RenameFile(request::RenameFileArgs { id, sig, to }),
        Op::Remove { id, sig } => Request::RemoveFile(request::RemoveFileArgs { id, sig }),
        Op::RenameUnopened { from, to } => Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from, to }),
        Op::RemoveUnopened { path } => Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path }),
        Op::CreateDir { path, all } => Request::CreateDir(request::CreateDirArgs { path, include_components: all }),
        Op::RenameDir { from, to } => Request::RenameDir(request::RenameDirArgs { from, to }),
        Op::RemoveDir { path, all } => Request::RemoveDir(request::RemoveDirArgs { path, non_empty: all }),
        Op::List { path } => Request::ListDirContents(request::ListDirContentsArgs { path }),
    }
}
pub fn from_reply(r: Reply) -> Obs {
    match r {
        Reply::FileOpened(a) => Obs::Opened { id: a.id, sig: a.sig, path: a.path, read: a.read, write: a.write },
        Reply::FileClosed(a) => Obs::Closed { id: a.id },
        Reply::FileContents(a) => Obs::Contents { id: a.id, data: a.contents },
        Reply::FileWritten(a) => Obs::Written { id: a.id, sig: a.sig },
        Reply::FileRenamed(a) => Obs::Renamed { id: a.id, sig: a.sig },
        Reply::FileRemoved(a) => Obs::Removed { id: a.id, sig: a.sig },
        Reply::UnopenedFileRenamed(a) => Obs::UnRenamed { from: a.from, to: a.to },
        Reply::UnopenedFileRemoved(a) => Obs::UnRemoved { path: a.path },
        Reply::DirCreated(a) => Obs::DirCreated { path: a.path },
        Reply::DirRenamed(a) => Obs::DirRenamed { from: a.from, to: a.to },
        Reply::DirRemoved(a) => Obs::DirRemoved { path: a.path },
        Reply::DirContentsList(a) => Obs::Listing { path: a.path, entries: a.entries.into_iter().map(|e| (e.path, e.is_file, e.is_dir, e.is_symlink)).collect() },
        Reply::Error(ReplyError::FileSigChanged(a)) => Obs::SigChanged { id: a.id, sig: Some(a.sig) },
        Reply::Error(ReplyError::Io(a)) => {
            let e: io::Error = a.into();
            Obs::Io(e.kind())
        }
        x => Obs::Other(truncate(&format!("{:?}", x), 300)),
    }
}

type Bad = (&'static str, String);
macro_rules! bad {
    ($c:expr, $($x:tt)*) => { return Err(($c, format!($($x)*))) };
}

impl Model {
    /// Where `p` leads (symlink resolved, dots removed).
    fn canon(&self, p: &str) -> PathBuf {
        let mut out = PathBuf::new();
        for c in Path::new(p).components() {
            match c {
                std::path::Component::ParentDir => {
                    out.pop();
                }
                std::path::Component::CurDir => {}
                c => out.push(c.as_os_str()),
            }
            if out == self.link {
                out = self.real.clone();
            }
        }
        out
    }
    fn node(&self, p: &Path) -> Option<Node> {
        if p == self.root { Some(Node::Dir) } else { self.tree.get(p).cloned() }
    }
    /// True if the directory part of `p` exists as written, all of it.
    fn walkable(&self, p: &str) -> bool {
        let mut out = PathBuf::new();
        let comps: Vec<_> = Path::new(p).components().collect();
        for c in &comps[..comps.len().saturating_sub(1)] {
            match c {
                std::path::Component::ParentDir => {
                    out.pop();
                }
                std::path::Component::CurDir => {}
                c => out.push(c.as_os_str()),
            }
            if out == self.link {
                out = self.real.clone();
            }
            if out.starts_with(&self.root) && self.node(&out) != Some(Node::Dir) {
                return false;
            }
        }
        true
    }
    fn opened_at(&self, p: &Path) -> Option<u32> {
        self.open.iter().find(|(_, o)| o.path == p).map(|x| *x.0)
    }
    fn open_below(&self, p: &Path) -> bool {
        self.open.values().any(|o| o.path.starts_with(p))
    }
    fn children(&self, p: &Path) -> Vec<PathBuf> {
        self.tree.keys().filter(|k| k.parent() == Some(p)).cloned().collect()
    }
    fn mv(&mut self, from: &Path, to: &Path) {
        let moved: Vec<_> = self.tree.keys().filter(|k| k.starts_with(from)).cloned().collect();
        let moved: Vec<_> = moved.into_iter().map(|k| { let v = self.tree.remove(&k).unwrap(); (k, v) }).collect();
        for (k, v) in moved {
            let rest = k.strip_prefix(from).unwrap();
            let k = if rest.as_os_str().is_empty() { to.to_path_buf() } else { to.join(rest) };
            self.tree.insert(k, v);
        }
    }

    /// Checks what was observed for `op` in this state and moves on.
    pub fn step(&mut self, op: &Op, obs: &Obs) -> Result<(), Bad> {
        let io = |o: &Obs| matches!(o, Obs::Io(_));
        let missing = |o: &Obs| matches!(o, Obs::Io(io::ErrorKind::NotFound));
        if let Obs::Other(x) = obs {
            if x.starts_with("the client's handle") {
                bad!("sig", "after {:?} {}", short(op), x);
            }
        }
        // operations on a handle: unknown id, stale signature
        if let Op::Close { id, sig } | Op::Read { id, sig } | Op::Write { id, sig, .. } | Op::Rename { id, sig, .. } | Op::Remove { id, sig } = op {
            match self.open.get(id) {
                None => {
                    if !io(obs) {
                        bad!("identity", "{:?} names a file that is not open but gave {:?}", op, obs);
                    }
                    return Ok(());
                }
                Some(o) if o.sig != *sig => {
                    match obs {
                        Obs::SigChanged { id: i, sig: s } if !matches!(op, Op::Close { .. }) => {
                            if i != id || s.map(|s| s != o.sig).unwrap_or(false) {
                                bad!("sig", "{:?} with a stale signature reported file {} with signature {:?}; it is {} with {}", short(op), i, s, id, o.sig);
                            }
                        }
                        Obs::Io(_) if matches!(op, Op::Close { .. }) => {}
                        x => bad!("sig", "{:?} with a stale signature (current: {}) gave {:?}", short(op), o.sig, x),
                    }
                    return Ok(());
                }
                _ => {}
            }
            if let Obs::SigChanged { .. } = obs {
                bad!("sig", "{:?} with the current signature was refused: {:?}", short(op), obs);
            }
        }
        match op {
            Op::Open { path, create, write, read } => {
                let c = self.canon(path);
                let node = self.node(&c);
                if let (Some(id), true) = (self.opened_at(&c), self.walkable(path)) {
                    let o = self.open.get_mut(&id).unwrap();
                    let (r, w) = (o.read || *read, o.write || *write);
                    if (r, w) != (o.read, o.write) && *create && !w {
                        // creating needs write access
                        if !io(obs) {
                            bad!("identity", "{:?} gave {:?}", op, obs);
                        }
                        return Ok(());
                    }
                    match obs {
                        Obs::Opened { id: i, sig: s, .. } if *i == id && *s == o.sig => {}
                        x => bad!("identity", "{:?} of a file that is open as ({}, {}) gave {:?}", op, id, o.sig, x),
                    }
                    o.read = r;
                    o.write = w;
                } else {
                    let usable = (*read || *write) && (!*create || *write);
                    let exists = self.walkable(path) && matches!(node, Some(Node::File(_)));
                    let creatable = self.walkable(path) && node.is_none() && *create;
                    if usable && (exists || creatable) {
                        match obs {
                            Obs::Opened { id, sig, .. } => {
                                if self.open.contains_key(id) || self.gone.contains(id) {
                                    bad!("identity", "{:?} gave the id of another (open or closed) file: {:?}", op, obs);
                                }
                                self.open.insert(*id, Open { sig: *sig, path: c.clone(), read: *read, write: *write });
                                self.tree.entry(c).or_insert(Node::File(vec![]));
                            }
                            x => bad!("identity", "{:?} gave {:?}", op, x),
                        }
                    } else if !io(obs) {
                        bad!("identity", "{:?} must fail but gave {:?}", op, obs);
                    } else if usable && self.walkable(path) && node.is_none() && !missing(obs) {
                        bad!("identity", "{:?} of a missing file gave {:?}", op, obs);
                    }
                    return match obs {
                        Obs::Opened { path: p, .. } if p != path => Err(("identity", format!("{:?} replied with path {}", op, p))),
                        Obs::Opened { read: r, write: w, .. } if (*r, *w) != (*read, *write) => Err(("identity", format!("{:?} replied with access {:?}", op, obs))),
                        _ => Ok(()),
                    };
                }
            }
            Op::Close { id, .. } => {
                if *obs != (Obs::Closed { id: *id }) {
                    bad!("identity", "{:?} gave {:?}", op, obs);
                }
                self.open.remove(id);
                self.gone.insert(*id);
            }
            Op::Read { id, .. } => {
                let o = &self.open[id];
                let want = match self.node(&o.path) {
                    Some(Node::File(d)) => d,
                    x => bad!("content", "model: {:?} is {:?}", o.path, x),
                };
                if !o.read {
                    if !io(obs) {
                        bad!("content", "read of a file opened without read access gave {}", show(obs));
                    }
                } else {
                    match obs {
                        Obs::Contents { id: i, data } if i == id && *data == want => {}
                        Obs::Contents { id: i, data } => bad!("content", "reading file {} ({}) gave {} bytes of {} that differ from the {} bytes written last", id, o.path.display(), data.len(), i, want.len()),
                        x => bad!("content", "reading file {} gave {}", id, show(x)),
                    }
                }
            }
            Op::Write { id, data, .. } => {
                let o = self.open.get_mut(id).unwrap();
                if !o.write {
                    if !io(obs) {
                        bad!("content", "write to a file opened without write access gave {}", show(obs));
                    }
                } else {
                    match obs {
                        Obs::Written { id: i, sig } if i == id => {
                            if *sig == o.sig {
                                bad!("sig", "the signature of file {} did not change with a write", id);
                            }
                            o.sig = *sig;
                        }
                        x => bad!("content", "writing file {} gave {}", id, show(x)),
                    }
                    let p = o.path.clone();
                    self.tree.insert(p, Node::File(data.clone()));
                }
            }
            Op::Rename { id, to, .. } => {
                let from = self.open[id].path.clone();
                let c = self.canon(to);
                let ok = self.walkable(to)
                    && match self.node(&c) {
                        None => true,
                        Some(Node::File(_)) => c == from || self.opened_at(&c).is_none(),
                        _ => false,
                    };
                if ok {
                    match obs {
                        Obs::Renamed { id: i, sig } if i == id => {
                            if *sig == self.open[id].sig {
                                bad!("sig", "the signature of file {} did not change with a rename", id);
                            }
                            let o = self.open.get_mut(id).unwrap();
                            o.sig = *sig;
                            o.path = c.clone();
                        }
                        x => bad!("identity", "{:?} gave {:?}", op, x),
                    }
                    if c != from {
                        self.tree.remove(&c);
                        self.mv(&from, &c);
                    }
                } else if !io(obs) {
                    bad!("protect", "{:?} must fail ({:?} is {:?}, open: {}) but gave {:?}", op, c, self.node(&c).map(|n| kind(&n)), self.opened_at(&c).is_some(), obs);
                }
            }
            Op::Remove { id, .. } => {
                match obs {
                    Obs::Removed { id: i, sig } if i == id => {
                        if *sig == self.open[id].sig {
                            bad!("sig", "the signature of file {} did not change with its removal", id);
                        }
                    }
                    x => bad!("identity", "{:?} gave {:?}", op, x),
                }
                let p = self.open.remove(id).unwrap().path;
                self.gone.insert(*id);
                self.tree.remove(&p);
            }
            Op::RenameUnopened { from, to } => {
                let (f, t) = (self.canon(from), self.canon(to));
                let protected = self.open_below(&f) || self.opened_at(&t).is_some();
                let ok = self.walkable(from)
                    && self.walkable(to)
                    && matches!(self.node(&f), Some(Node::File(_)))
                    && matches!(self.node(&t), None | Some(Node::File(_)))
                    && !protected;
                if ok {
                    if *obs != (Obs::UnRenamed { from: from.clone(), to: to.clone() }) {
                        bad!("dir", "{:?} gave {:?}", op, obs);
                    }
                    if f != t {
                        self.tree.remove(&t);
                        self.mv(&f, &t);
                    }
                } else if !io(obs) {
                    bad!(if protected { "protect" } else { "dir" }, "{:?} must fail (open: {}) but gave {:?}", op, protected, obs);
                } else if self.walkable(from) && self.walkable(to) && self.node(&f).is_none() && self.node(&t) != Some(Node::Dir) && !protected && !missing(obs) {
                    bad!("dir", "{:?} of a missing file gave {:?}", op, obs);
                }
            }
            Op::RemoveUnopened { path } => {
                let p = self.canon(path);
                let protected = self.open_below(&p);
                if self.walkable(path) && matches!(self.node(&p), Some(Node::File(_))) && !protected {
                    if *obs != (Obs::UnRemoved { path: path.clone() }) {
                        bad!("dir", "{:?} gave {:?}", op, obs);
                    }
                    self.tree.remove(&p);
                } else if !io(obs) {
                    bad!(if protected { "protect" } else { "dir" }, "{:?} must fail (open: {}) but gave {:?}", op, protected, obs);
                } else if self.walkable(path) && self.node(&p).is_none() && !missing(obs) {
                    bad!("dir", "{:?} of a missing file gave {:?}", op, obs);
                }
            }
            Op::CreateDir { path, all } => {
                let p = self.canon(path);
                let mut need = vec![];
                let mut blocked = false;
                let mut a: &Path = &p;
                while a != self.root {
                    match self.node(a) {
                        None => need.push(a.to_path_buf()),
                        Some(Node::Dir) => break,
                        _ => blocked = true,
                    }
                    if blocked {
                        break;
                    }
                    a = match a.parent() { Some(x) => x, None => break };
                }
                let ok = !blocked && if *all { true } else { need.len() == 1 };
                if ok {
                    if *obs != (Obs::DirCreated { path: path.clone() }) {
                        bad!("dir", "{:?} gave {:?}", op, obs);
                    }
                    for n in need {
                        self.tree.insert(n, Node::Dir);
                    }
                } else if !io(obs) {
                    bad!("dir", "{:?} must fail but gave {:?}", op, obs);
                } else if !*all && !blocked && need.is_empty() && *obs != Obs::Io(io::ErrorKind::AlreadyExists) {
                    bad!("dir", "{:?} of an existing directory gave {:?}", op, obs);
                }
            }
            Op::RenameDir { from, to } => {
                let (f, t) = (self.canon(from), self.canon(to));
                let protected = self.open_below(&f);
                let ok = self.walkable(from)
                    && self.walkable(to)
                    && self.node(&f) == Some(Node::Dir)
                    && (f == t
                        || (!t.starts_with(&f)
                            && !f.starts_with(&t)
                            && (self.node(&t).is_none() || (self.node(&t) == Some(Node::Dir) && self.children(&t).is_empty()))))
                    && !protected;
                if ok {
                    if *obs != (Obs::DirRenamed { from: from.clone(), to: to.clone() }) {
                        bad!("dir", "{:?} gave {:?}", op, obs);
                    }
                    if f != t {
                        self.tree.remove(&t);
                        self.mv(&f, &t);
                    }
                } else if !io(obs) {
                    bad!(if protected { "protect" } else { "dir" }, "{:?} must fail (open below: {}) but gave {:?}", op, protected, obs);
                }
            }
            Op::RemoveDir { path, all } => {
                let p = self.canon(path);
                let protected = self.open_below(&p);
                let ok = self.walkable(path) && self.node(&p) == Some(Node::Dir) && !protected && (*all || self.children(&p).is_empty());
                if ok {
                    if *obs != (Obs::DirRemoved { path: path.clone() }) {
                        bad!("dir", "{:?} gave {:?}", op, obs);
                    }
                    self.tree.retain(|k, _| !k.starts_with(&p));
                } else if !io(obs) {
                    bad!(if protected { "protect" } else { "dir" }, "{:?} must fail (open below: {}) but gave {:?}", op, protected, obs);
                }
            }
            Op::List { path } => {
                let p = self.canon(path);
                if self.walkable(path) && self.node(&p) == Some(Node::Dir) {
                    match obs {
                        Obs::Listing { path: q, entries } if q == path => {
                            let mut got: Vec<(PathBuf, bool, bool, bool)> = entries.iter().map(|e| (PathBuf::from(&e.0), e.1, e.2, e.3)).collect();
                            got.sort();
                            let mut want: Vec<(PathBuf, bool, bool, bool)> = self
                                .children(&p)
                                .into_iter()
                                .map(|k| {
                                    let n = &self.tree[&k];
                                    (k.clone(), matches!(n, Node::File(_)), *n == Node::Dir, *n == Node::Link)
                                })
                                .collect();
                            want.sort();
                            if got != want {
                                bad!("dir", "listing {} gave {:?} instead of {:?}", path, got, want);
                            }
                        }
                        x => bad!("dir", "{:?} gave {}", op, show(x)),
                    }
                } else if !io(obs) {
                    bad!("dir", "{:?} must fail but gave {}", op, show(obs));
                }
            }
        }
        Ok(())
    }
}
fn kind(n: &Node) -> &'static str {
    match n {
        Node::Dir => "a directory",
        Node::File(_) => "a file",
        Node::Link => "a link",
    }
}
fn short(op: &Op) -> String {
    truncate(&format!("{:?}", op), 120)
}
fn show(o: &Obs) -> String {
    truncate(&format!("{:?}", o), 300)
}

fn walk(p: &Path, out: &mut BTreeMap<PathBuf, Node>) {
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d.flatten() {
            let t = match e.file_type() { Ok(t) => t, Err(_) => continue };
            let k = e.path();
            if t.is_dir() {
                out.insert(k.clone(), Node::Dir);
                walk(&k, out);
            } else if t.is_file() {
                out.insert(k.clone(), Node::File(std::fs::read(&k).unwrap_or_default()));
            } else {
                out.insert(k, Node::Link);
            }
        }
    }
}
pub fn disk(root: &Path) -> BTreeMap<PathBuf, Node> {
    let mut m = BTreeMap::new();
    walk(root, &mut m);
    m
}
fn diff(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{} is {} on disk but must not exist", k.display(), kind(v))),
            Some(w) if w != v => {
                return Some(match (v, w) {
                    (Node::File(x), Node::File(y)) => format!("{} holds {} bytes that differ from the expected {} bytes", k.display(), x.len(), y.len()),
                    _ => format!("{} is {} instead of {}", k.display(), kind(v), kind(w)),
                })
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{} is missing on disk", k.display()))
}
/// Descriptors of this process that lead below `root`.
pub fn fds_below(root: &Path) -> Vec<String> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(root) {
                    v.push(t.display().to_string());
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ running it
/// One request through the typed client functions.
async fn typed(cl: &mut ConnectedClient, op: &Op) -> Result<Obs, AskError> {
    fn at(id: u32, sig: u32, path: &str) -> RemoteFile {
        RemoteFile::from(reply::FileOpenedArgs { id, sig, path: path.to_string(), read: true, write: true })
    }
    fn file(id: u32, sig: u32) -> RemoteFile {
        at(id, sig, "")
    }
    fn handle_wrong(f: &RemoteFile, id: u32, sig: u32, path: &str) -> Option<Obs> {
        let want = at(id, sig, path);
        if *f != want { Some(Obs::Other(format!("the client's handle is {:?} instead of {:?}", f, want))) } else { None }
    }
    let res: Result<Reply, FileAskError> = match op.clone() {
        Op::Open { path, create, write, read } => cl.ask_open_file_with_options(path, create, write, read).await.map(Reply::FileOpened),
        Op::Close { id, sig } => cl.ask_close_file(&file(id, sig)).await.map(Reply::FileClosed),
        Op::Read { id, sig } => cl.ask_read_file(&file(id, sig)).await.map(Reply::FileContents),
        // the handle a client holds must follow what happened to the file
        Op::Write { id, sig, data } => {
            let mut f = file(id, sig);
            let r = cl.ask_write_file(&mut f, &data).await;
            if let Some(x) = handle_wrong(&f, id, r.as_ref().map(|a| a.sig).unwrap_or(sig), "") {
                return Ok(x);
            }
            r.map(Reply::FileWritten)
        }
        Op::Rename { id, sig, to } => {
            let mut f = file(id, sig);
            let r = cl.ask_rename_file(&mut f, to.clone()).await;
            if let Some(x) = handle_wrong(&f, id, r.as_ref().map(|a| a.sig).unwrap_or(sig), if r.is_ok() { &to } else { "" }) {
                return Ok(x);
            }
            r.map(Reply::FileRenamed)
        }
        Op::Remove { id, sig } => {
            let mut f = file(id, sig);
            let r = cl.ask_remove_file(&mut f).await;
            if let Some(x) = handle_wrong(&f, id, r.as_ref().map(|a| a.sig).unwrap_or(sig), "") {
                return Ok(x);
            }
            r.map(Reply::FileRemoved)
        }
        Op::RenameUnopened { from, to } => cl.ask_rename_unopened_file(from, to).await.map(Reply::UnopenedFileRenamed),
        Op::RemoveUnopened { path } => cl.ask_remove_unopened_file(path).await.map(Reply::UnopenedFileRemoved),
        Op::CreateDir { path, all } => cl.ask_create_dir(path, all).await.map(Reply::DirCreated),
        Op::RenameDir { from, to } => cl.ask_rename_dir(from, to).await.map(Reply::DirRenamed),
        Op::RemoveDir { path, all } => cl.ask_remove_dir(path, all).await.map(Reply::DirRemoved),
        Op::List { path } => cl.ask_list_dir_contents(path).await.map(Reply::DirContentsList),
    };
    match res {
        Ok(r) => Ok(from_reply(r)),
        Err(FileAskError::IoError(e)) => Ok(Obs::Io(e.kind())),
        Err(FileAskError::FileSignatureChanged { id }) => Ok(Obs::SigChanged { id, sig: None }),
        Err(FileAskError::GeneralAskFailed(AskError::InvalidResponse { reply })) => Ok(Obs::Other(format!("not understood by the client: {:?}", reply))),
        Err(FileAskError::GeneralAskFailed(e)) => Err(e),
    }
}

/// As long as a name may be.
const LONG_NAME: &str = concat!(
    "123456789012345678901234567890123456789012345678901234567890123",
    "123456789012345678901234567890123456789012345678901234567890123",
    "123456789012345678901234567890123456789012345678901234567890123",
    "123456789012345678901234567890123456789012345678901234567890123",
    "abc"
);

struct Gen<'a> {
    r: &'a mut StdRng,
    m: &'a Model,
    prop: &'a str,
    stale: &'a [(u32, u32)],
}
impl<'a> Gen<'a> {
    fn dir(&mut self) -> PathBuf {
        let mut v: Vec<PathBuf> = self.m.tree.iter().filter(|x| *x.1 == Node::Dir).map(|x| x.0.clone()).collect();
        v.push(self.m.root.clone());
        v.push(self.m.root.clone());
        v.choose(self.r).unwrap().clone()
    }
    /// Another way to write the same path.
    fn spell(&mut self, p: &Path) -> String {
        let mut p = p.to_path_buf();
        if p.starts_with(&self.m.real) && p != self.m.real && self.r.gen_bool(0.4) {
            p = self.m.link.join(p.strip_prefix(&self.m.real).unwrap());
        }
        let s = p.display().to_string();
        if p == self.m.root {
            return s;
        }
        let dir = p.parent().unwrap().display().to_string();
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        match self.r.gen_range(0, 8) {
            0 => format!("{}/./{}", dir, name),
            1 => format!("{}//{}", dir, name),
            2 => format!("{}/{}/../{}", self.m.root.display(), self.m.real.file_name().unwrap().to_string_lossy(), p.strip_prefix(&self.m.root).unwrap().display()),
            _ => s,
        }
    }
    fn path(&mut self) -> String {
        let mut files: Vec<PathBuf> = self.m.tree.iter().filter(|x| matches!(x.1, Node::File(_))).map(|x| x.0.clone()).collect();
        files.extend(self.m.open.values().map(|o| o.path.clone()));
        let p = match self.r.gen_range(0, 10) {
            0..=5 if !files.is_empty() => files.choose(self.r).unwrap().clone(),
            6 => self.dir(),
            7 if !files.is_empty() => files.choose(self.r).unwrap().join("below"), // below a file
            8 => self.m.root.join("no-such-dir").join("f"),
            _ => {
                let d = self.dir();
                let n = *["a", "b", "c", "ab", "new file", "\u{fc}\u{1F980}", ".hidden", "..data", "...", " lead", "trail ", "line\nbreak", "*", "~", LONG_NAME].choose(self.r).unwrap();
                d.join(n)
            }
        };
        self.spell(&p)
    }
    fn handle(&mut self) -> (u32, u32) {
        let v: Vec<(u32, u32)> = self.m.open.iter().map(|(i, o)| (*i, o.sig)).collect();
        let k = self.r.gen_range(0, 12);
        match v.choose(self.r) {
            Some(h) if k < 9 => *h,
            Some(h) if k == 9 => (h.0, h.1 ^ (1 << self.r.gen_range(0, 32))),
            _ => match self.stale.choose(self.r) {
                Some(h) if self.r.gen_bool(0.8) => *h,
                _ => (self.r.gen(), self.r.gen()),
            },
        }
    }
    fn data(&mut self) -> Vec<u8> {
        let n = match self.r.gen_range(0, 12) {
            0 => 0,
            1 => self.r.gen_range(3000, 40_000),
            2..=4 => self.r.gen_range(100, 3000),
            _ => self.r.gen_range(1, 100),
        };
        payload(self.r, n)
    }
    /// Not a symlink, and not the directory it leads to, as what is moved or removed.
    fn movable_dir(&mut self) -> PathBuf {
        for _ in 0..10 {
            let d = self.dir();
            if d != self.m.root && !self.m.real.starts_with(&d) {
                return d;
            }
        }
        self.m.root.join("missing")
    }
    fn op(&mut self) -> Op {
        let w: &[u32; 12] = match self.prop {
            //        open close read write rename remove ru  rmu cd  rd  rmd list
            "C11" => &[16, 8, 12, 30, 12, 6, 2, 2, 1, 1, 1, 1],
            "C12" => &[18, 8, 28, 30, 8, 4, 3, 3, 2, 1, 1, 1],
            "C13" => &[30, 12, 6, 8, 12, 8, 10, 8, 3, 6, 6, 2],
            _ => &[8, 6, 2, 4, 2, 2, 12, 10, 20, 16, 12, 14],
        };
        let mut k = self.r.gen_range(0, w.iter().sum::<u32>());
        let mut which = 0;
        while k >= w[which] {
            k -= w[which];
            which += 1;
        }
        let (id, sig) = self.handle();
        match which {
            0 => {
                let (c, w, r) = *[(true, true, true), (true, true, true), (false, false, true), (false, true, false), (false, true, true), (true, true, false), (true, false, true), (false, false, false)].choose(self.r).unwrap();
                let mut path = self.path();
                // a directory may be opened for reading; that is not what this is about
                if matches!(self.m.node(&self.m.canon(&path)), Some(Node::Dir)) && !w {
                    path = format!("{}/x", path);
                }
                Op::Open { path, create: c, write: w, read: r }
            }
            1 => Op::Close { id, sig },
            2 => Op::Read { id, sig },
            3 => Op::Write { id, sig, data: self.data() },
            4 => Op::Rename { id, sig, to: self.path() },
            5 => Op::Remove { id, sig },
            6 => Op::RenameUnopened { from: self.path(), to: self.path() },
            7 => Op::RemoveUnopened { path: self.path() },
            8 => {
                let d = self.dir();
                let n = *["d", "d1", "d12", "d2"].choose(self.r).unwrap();
                let p = match self.r.gen_range(0, 5) {
                    0 => d,
                    1 => d.join(n).join("deep").join("er"),
                    2 => PathBuf::from(self.path()),
                    _ => d.join(n),
                };
                // (dots through directories that do not exist are left out)
                let p = self.m.canon(&p.display().to_string());
                Op::CreateDir { path: p.display().to_string(), all: self.r.gen() }
            }
            9 => {
                let from = if self.r.gen_bool(0.15) { PathBuf::from(self.path()) } else { self.movable_dir() };
                let from = self.m.canon(&from.display().to_string());
                let from = if self.m.real.starts_with(&from) { self.m.root.join("missing") } else { from };
                let d = self.dir();
                let to = match self.r.gen_range(0, 4) {
                    0 => self.movable_dir(),
                    1 => d.join("d1"),
                    2 => d.join("moved"),
                    _ => from.join("inside"),
                };
                let (from, to) = (self.spell(&from), self.spell(&to));
                Op::RenameDir { from, to }
            }
            10 => {
                let p = if self.r.gen_bool(0.15) { PathBuf::from(self.path()) } else { self.movable_dir() };
                let p = self.m.canon(&p.display().to_string());
                let p = if self.m.real.starts_with(&p) { self.m.root.join("missing") } else { p };
                Op::RemoveDir { path: self.spell(&p), all: self.r.gen() }
            }
            _ => {
                let d = self.dir();
                let path = if self.r.gen_bool(0.2) { self.path() } else { self.spell(&d) };
                Op::List { path }
            }
        }
    }
}

/// Which discrepancies decide which property.
pub fn decides(prop: &str, class: &str) -> bool {
    match prop {
        "C11" => ["sig", "race", "refused-write", "no-answer"].contains(&class),
        "C12" => ["content", "disk", "race", "refused-write", "no-answer"].contains(&class),
        "C13" => ["identity", "protect", "fd", "race", "disk", "no-answer"].contains(&class),
        _ => ["dir", "disk", "protect", "race", "no-answer"].contains(&class),
    }
}

pub fn histories(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(160, 6000), Duration::from_secs(ctx.pick(60, 700)), move |i| history(&c, i));
    if ctx.prop() == "C13" {
        crowd(ctx);
    }
    if ["C11", "C12"].contains(&ctx.prop()) {
        no_room(ctx);
    }
    let c = ctx.clone();
    match ctx.prop() {
        "C12" => par_cases(ctx, ctx.pick(16, 200), Duration::from_secs(ctx.pick(60, 300)), move |i| crate::links::big(&c, i)),
        "C13" | "C22" => par_cases(ctx, ctx.pick(120, 4000), Duration::from_secs(ctx.pick(40, 400)), move |i| crate::links::links(&c, i)),
        _ => {}
    }
    let c = ctx.clone();
    if ctx.prop() == "C22" {
        par_cases(ctx, ctx.pick(16, 200), Duration::from_secs(ctx.pick(30, 200)), move |i| crate::links::wide(&c, i));
    }
    ctx.report_panics("files and directories were used");
    ctx.finish(
        "histories of 60-200 seeded requests by 1-3 clients (typed client functions and raw requests) on files and \
         directories of a scratch tree, with stale, wrong and unknown handles, differently spelled and symlinked paths, \
         every permission combination, and batches of 2-5 racing requests; after every step the reply is checked \
         against the model, the disk against the model's tree and the open descriptors against the model's handles; \
         non-trivial = at least 20 requests succeeded; distinct by the sequence of requests and outcomes",
        100,
        &["others change the scratch directory only between requests", "the final component of a path to remove or rename is never a symlink"],
    )
}

/// Thousands of files open at the same time, each still reachable through its
/// own handle. Handles are drawn at random from 32 bits, so with this many one
/// coincidence is conceivable (1 in 500 runs); two are not (1 in 500,000).
fn crowd(c: &Ctx) {
    let lim = libc::rlimit { rlim_cur: 18_000, rlim_max: 18_000 };
    unsafe {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
        if old.rlim_cur < 18_000 {
            libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
        }
    }
    let mut room = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut room) };
    let n = 4000.min((room.rlim_cur as usize).saturating_sub(300));
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let srv = match SrvCfg::noop(Proto::Tcp).start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let (a, b) = (make_auth(AuthKind::Noop, &[]), make_crypt(CryptKind::Noop, &[0; 64]));
    let mut rt = runtime(1);
    let mut cl = match rt.block_on(connect(Proto::Tcp, srv.addr, &a, &b)) {
        Ok(x) => x,
        Err(_) => return c.inconclusive("client did not connect"),
    };
    cl.timeout = Duration::from_secs(120);
    let mut handles: Vec<(u32, u32)> = vec![];
    let text = |k: usize| format!("contents of file {}", k).into_bytes();
    let mut ask = |ops: Vec<Op>| -> Option<Vec<Obs>> {
        let q = Request::Batch(request::BatchArgs { operations: ops.iter().map(to_request).collect() });
        match rt.block_on(cl.ask(q)) {
            Ok(Reply::Batch(b)) => Some(b.results.into_iter().map(from_reply).collect()),
            _ => None,
        }
    };
    for lo in (0..n).step_by(200) {
        let ks: Vec<usize> = (lo..(lo + 200).min(n)).collect();
        for k in &ks {
            std::fs::write(root.join(k.to_string()), text(*k)).unwrap();
        }
        let ops = ks.iter().map(|k| Op::Open { path: root.join(k.to_string()).display().to_string(), create: false, write: k % 2 == 0, read: true }).collect();
        for o in match ask(ops) { Some(x) => x, None => return c.inconclusive("opening many files was not answered") } {
            match o {
                Obs::Opened { id, sig, .. } => handles.push((id, sig)),
                x => return c.violation("crowd-open", &format!("opening file {} of {} gave {:?}", handles.len(), n, x), json!({})),
            }
        }
    }
    let mut wrong: Vec<(usize, String)> = vec![];
    for lo in (0..n).step_by(200) {
        let ks: Vec<usize> = (lo..(lo + 200).min(n)).collect();
        let ops = ks.iter().map(|k| Op::Read { id: handles[*k].0, sig: handles[*k].1 }).collect();
        for (k, o) in ks.iter().zip(match ask(ops) { Some(x) => x, None => return c.inconclusive("reading many files was not answered") }) {
            match o {
                Obs::Contents { id, data } if id == handles[*k].0 && data == text(*k) => {}
                x => wrong.push((*k, truncate(&format!("{:?}", x), 100))),
            }
        }
    }
    c.eval();
    c.count("open_at_once", n as u64);
    c.distinct(&("crowd", n));
    if wrong.len() >= 2 {
        c.violation("crowd-handle", &format!("with {} files open, {} handles do not lead to their file, e.g. file {}: {}", n, wrong.len(), wrong[0].0, wrong[0].1), json!({"files": n}));
    } else if wrong.len() == 1 {
        c.inconclusive("one coincidence of random handles");
    }
    srv.stop();
}

/// Writes that fail part of the way (no file may grow beyond a limit): what
/// they changed is reflected by the signature, and what is read is what is
/// there. The limit holds for the whole process, hence one case at a time.
fn no_room(c: &Ctx) {
    const LIMIT: u64 = 20_000;
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
    }
    for i in 0..c.pick(25, 300) {
        if c.done() {
            break;
        }
        let low = libc::rlimit { rlim_cur: LIMIT, rlim_max: old.rlim_max };
        unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &low) };
        let res = no_room_case(c, i, LIMIT as usize);
        unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old) };
        if let Err((class, msg)) = res {
            if decides(c.prop(), class) {
                c.violation(&format!("fs-{}", class), &msg, json!({"case": i, "limit": LIMIT}));
            }
        }
    }
}
fn no_room_case(c: &Ctx, i: u64, limit: usize) -> Result<(), Bad> {
    let mut r = c.rng("room", i);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let srv = match SrvCfg::noop(Proto::Tcp).start() {
        Ok(s) => s,
        Err(_) => { c.inconclusive("server did not start"); return Ok(()) }
    };
    let (a, b) = (make_auth(AuthKind::Noop, &[]), make_crypt(CryptKind::Noop, &[0; 64]));
    let mut rt = runtime(1);
    let mut cl = match rt.block_on(connect(Proto::Tcp, srv.addr, &a, &b)) {
        Ok(x) => x,
        Err(_) => { c.inconclusive("client did not connect"); return Ok(()) }
    };
    cl.timeout = Duration::from_secs(30);
    let path = root.join("f");
    let ps = path.display().to_string();
    let (mut failed, mut partial) = (0u64, 0u64);
    let mut ask = |op: &Op| rt.block_on(typed(&mut cl, op)).map_err(|e| ("no-answer", format!("{} gave {:?}", short(op), e)));
    let opened = Op::Open { path: ps.clone(), create: true, write: true, read: true };
    let (id, mut sig) = match ask(&opened)? {
        Obs::Opened { id, sig, .. } => (id, sig),
        x => bad!("identity", "{:?} gave {:?}", opened, x),
    };
    for _ in 0..r.gen_range(4, 16) {
        let before = std::fs::read(&path).unwrap_or_default();
        let n = *[0, 10, limit - 1, limit, limit + 1, limit + 5000, limit * 6].choose(&mut r).unwrap();
        let data = payload(&mut r, n);
        let w = ask(&Op::Write { id, sig, data: data.clone() })?;
        let now = std::fs::read(&path).unwrap_or_default();
        match w {
            Obs::Written { sig: s, .. } if n <= limit => {
                if s == sig {
                    bad!("sig", "the signature did not change with a write");
                }
                if now != data {
                    bad!("content", "a write of {} bytes was answered but the file holds {} other ones", n, now.len());
                }
                sig = s;
            }
            Obs::Io(_) if n > limit => {
                failed += 1;
                let s = match ask(&Op::Open { path: ps.clone(), create: false, write: false, read: false })? {
                    Obs::Opened { id: x, sig: s, .. } if x == id => s,
                    x => bad!("refused-write", "after a failed write, opening the file again gave {:?}", x),
                };
                if now != before {
                    partial += 1;
                    if s == sig {
                        bad!("sig", "a failed write left {} bytes in place of {} but the signature is the same", now.len(), before.len());
                    }
                    // somebody who has not heard of it must not get through
                    let stale = match r.gen_range(0, 3) {
                        0 => Op::Read { id, sig },
                        1 => Op::Write { id, sig, data: vec![1, 2, 3] },
                        _ => Op::Rename { id, sig, to: root.join("g").display().to_string() },
                    };
                    match ask(&stale)? {
                        Obs::SigChanged { .. } => {}
                        x => bad!("sig", "{} with the signature from before a partial write gave {}", short(&stale), show(&x)),
                    }
                }
                sig = s;
            }
            x => bad!("content", "a write of {} bytes with room for {} gave {}", n, limit, show(&x)),
        }
        match ask(&Op::Read { id, sig })? {
            Obs::Contents { data, .. } if data == std::fs::read(&path).unwrap_or_default() => {}
            x => bad!("content", "after a write of {} bytes with room for {}, a read gave {}", n, limit, show(&x)),
        }
    }
    drop(ask);
    srv.stop();
    c.eval();
    c.count("failed_writes", failed);
    c.count("failed_writes_with_effect", partial);
    c.distinct(&("room", i));
    Ok(())
}

fn history(c: &Ctx, i: u64) {
    let mut r = c.rng("fs", i);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let mut cfg = SrvCfg::noop(Proto::Tcp);
    if r.gen_bool(0.3) {
        cfg.auth = make_auth(AuthKind::Sha256, b"k");
        cfg.crypt = make_crypt(CryptKind::GcmSiv256, &[3; 64]);
    }
    let (auth, crypt) = (cfg.auth.clone(), cfg.crypt.clone());
    let srv = match cfg.start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("server did not start"),
    };
    let mut rt = runtime(1);
    let mut cls = vec![];
    let addr = srv.addr;
    for _ in 0..r.gen_range(1, 4) {
        if let Ok(mut x) = rt.block_on(connect(Proto::Tcp, addr, &auth, &crypt)) {
            x.timeout = Duration::from_secs(30);
            cls.push(x);
        }
    }
    if cls.is_empty() {
        return c.inconclusive("client did not connect");
    }
    // the scratch tree
    let mut m = Model { root: root.clone(), link: root.join("ln"), real: root.join("real"), ..Default::default() };
    std::fs::create_dir(&m.real).unwrap();
    std::os::unix::fs::symlink(&m.real, &m.link).unwrap();
    for (d, n) in &[("real", "a"), ("real", "x"), (".", "b"), (".", "c")] {
        let data = payload(&mut r, 50);
        let p = if *d == "." { root.join(n) } else { root.join(d).join(n) };
        std::fs::write(&p, data).unwrap();
    }
    // (names that begin like others)
    for d in &["d", "d1", "d12"] {
        std::fs::create_dir(root.join(d)).unwrap();
    }
    std::fs::write(root.join("d12/ab"), b"ab").unwrap();
    std::fs::write(root.join("bc"), b"bc").unwrap();
    m.tree = disk(&root);

    let prop = c.prop().to_string();
    let mut stale: Vec<(u32, u32)> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut outcome: Vec<(u8, u8)> = vec![];
    let mut ok = 0u64;
    let mut problem: Option<Bad> = None;
    let n = r.gen_range(60, 200);
    let mut races = 0;
    let mut outside = 0u64;
    for _ in 0..n {
        // somebody else works on the same files
        if r.gen_bool(0.08) {
            if let Some(t) = other_hand(&mut r, &mut m) {
                trace.push(t);
                outside += 1;
            }
        }
        let mut last_stale = false;
        let ncl = cls.len();
        let cl = &mut cls[r.gen_range(0, ncl)];
        if r.gen_bool(0.15) {
            // a race: several requests at once
            let mut ops: Vec<Op> = vec![];
            let k = r.gen_range(2, 6);
            let focus: Option<(u32, u32)> = m.open.iter().filter(|x| x.1.write && x.1.read).map(|x| (*x.0, x.1.sig)).collect::<Vec<_>>().choose(&mut r).cloned();
            let focus_path = Gen { r: &mut r, m: &m, prop: &prop, stale: &stale }.path();
            while ops.len() < k {
                let mut g = Gen { r: &mut r, m: &m, prop: &prop, stale: &stale };
                let op = match (focus, g.r.gen_range(0, 10)) {
                    (Some((id, sig)), 0..=3) => Op::Write { id, sig, data: { let n = g.r.gen_range(0, 500); payload(g.r, n) } },
                    (Some((id, sig)), 4) => Op::Read { id, sig },
                    (Some((id, sig)), 5) => if g.r.gen_bool(0.3) { Op::Remove { id, sig } } else { Op::Rename { id, sig, to: g.path() } },
                    (None, 0..=3) | (_, 6) => {
                        if matches!(m.node(&m.canon(&focus_path)), Some(Node::Dir)) { continue }
                        let (c, w, r) = *[(true, true, true), (false, false, true), (false, true, false), (true, true, false)].choose(g.r).unwrap();
                        Op::Open { path: focus_path.clone(), create: c, write: w, read: r }
                    }
                    _ => g.op(),
                };
                // a refused write leaves the signature open; keep it out of races
                if let Op::Write { id, .. } = &op {
                    if m.open.get(id).map(|o| !o.write).unwrap_or(false) {
                        continue;
                    }
                }
                ops.push(op);
            }
            // a directory can be opened for reading; that is not what this is about
            let ro: Vec<PathBuf> = ops.iter().filter_map(|o| match o { Op::Open { path, write: false, .. } => Some(m.canon(path)), _ => None }).collect();
            ops.retain(|o| match o {
                Op::CreateDir { path, .. } | Op::RenameDir { to: path, .. } => {
                    let t = m.canon(path);
                    !ro.iter().any(|p| p.starts_with(&t) || t.starts_with(p))
                }
                _ => true,
            });
            let before: Vec<(u32, u32)> = m.open.iter().map(|(i, o)| (*i, o.sig)).collect();
            let req = Request::Batch(request::BatchArgs { operations: ops.iter().map(to_request).collect() });
            let res = rt.block_on(cl.ask(req));
            let obs: Vec<Obs> = match res {
                Ok(Reply::Batch(b)) if b.results.len() == ops.len() => b.results.into_iter().map(from_reply).collect(),
                x => {
                    problem = Some(("no-answer", format!("a batch of {} gave {}", ops.len(), truncate(&format!("{:?}", x), 300))));
                    break;
                }
            };
            races += 1;
            for (o, b) in ops.iter().zip(&obs) {
                trace.push(format!("race {} -> {}", short(o), truncate(&format!("{:?}", b), 100)));
            }
            let now = disk(&root);
            let mut why = vec![];
            match explain(&m, &ops, &obs, &now, &mut why) {
                Some(m2) => m = m2,
                None => {
                    problem = Some(("race", format!("no order of the racing requests explains their outcomes: {}", why.join(" / "))));
                    break;
                }
            }
            for h in before {
                if m.open.get(&h.0).map(|o| o.sig != h.1).unwrap_or(true) {
                    stale.push(h);
                }
            }
        } else {
            let op = Gen { r: &mut r, m: &m, prop: &prop, stale: &stale }.op();
            let obs = match r.gen_range(0, 3) {
                0 => rt.block_on(cl.ask(to_request(&op))).map(from_reply),
                1 if r.gen_bool(0.3) => {
                    // as the only step of a sequence
                    let q = Request::Sequence(request::SequenceArgs { operations: vec![LazilyTransformedRequest::new(to_request(&op), vec![])] });
                    match rt.block_on(cl.ask(q)) {
                        Ok(Reply::Sequence(mut s)) if s.results.len() == 1 => Ok(from_reply(s.results.remove(0))),
                        Ok(x) => Ok(Obs::Other(format!("{:?}", x))),
                        Err(e) => Err(e),
                    }
                }
                _ => rt.block_on(typed(cl, &op)),
            };
            let obs = match obs {
                Ok(o) => o,
                Err(e) => {
                    problem = Some(("no-answer", format!("{} gave {:?}", short(&op), e)));
                    break;
                }
            };
            trace.push(format!("{} -> {}", short(&op), truncate(&format!("{:?}", obs), 100)));
            last_stale = matches!(obs, Obs::SigChanged { .. });
            outcome.push((tag(&op), matches!(obs, Obs::Io(_) | Obs::SigChanged { .. }) as u8));
            if !matches!(obs, Obs::Io(_) | Obs::SigChanged { .. }) {
                ok += 1;
            }
            if let Op::Close { id, sig } | Op::Write { id, sig, .. } | Op::Rename { id, sig, .. } | Op::Remove { id, sig } = &op {
                if stale.len() < 50 {
                    stale.push((*id, *sig));
                }
            }
            if let Err(e) = m.step(&op, &obs) {
                problem = Some(e);
                break;
            }
            stale.retain(|h| m.open.get(&h.0).map(|o| o.sig != h.1).unwrap_or(true));
            // after a refused write the file must be as it was; its signature may have moved on
            if let (Op::Write { id, .. }, Obs::Io(_)) = (&op, &obs) {
                if let Some(o) = m.open.get(id).cloned() {
                    let q = Op::Open { path: o.path.display().to_string(), create: false, write: false, read: false };
                    match rt.block_on(typed(cl, &q)) {
                        Ok(Obs::Opened { id: i, sig, .. }) if i == *id => m.open.get_mut(id).unwrap().sig = sig,
                        x => {
                            problem = Some(("refused-write", format!("after a refused write, opening the file again gave {:?}", x)));
                            break;
                        }
                    }
                }
            }
        }
        if let Some(d) = diff(&disk(&root), &m.tree) {
            // a refused request must not have done anything
            problem = Some((if last_stale { "sig" } else { "disk" }, format!("after {}: {}", trace.last().cloned().unwrap_or_default(), d)));
            break;
        }
        if prop == "C13" || r.gen_bool(0.1) {
            let want = m.open.len();
            if !eventually(Duration::from_secs(5), || fds_below(&root).len() == want) {
                problem = Some(("fd", format!("{} files are open but the server holds descriptors {:?}", want, fds_below(&root))));
                break;
            }
        }
        if c.done() {
            break;
        }
    }
    drop(cls);
    rt.shutdown_timeout(Duration::from_millis(50));
    srv.stop();
    c.eval();
    c.count("requests", trace.len() as u64);
    c.count("races", races);
    c.count("requests_succeeded", ok);
    c.count("changes_by_others", outside);
    if ok >= 20 {
        c.distinct(&outcome);
    }
    c.sample(json!({"case": i, "requests": trace.len(), "races": races, "first": trace.iter().take(12).collect::<Vec<_>>()}));
    if let Some((class, msg)) = problem {
        if decides(&prop, class) {
            let tail: Vec<_> = trace.iter().rev().take(60).rev().cloned().collect();
            c.violation(&format!("fs-{}", class), &msg, json!({"case": i, "last_requests": tail}));
        } else {
            c.count("ended_by_another_property", 1);
        }
    }
}
/// A change to the scratch tree that does not go through the server: any
/// file's contents (often with the length they had), and files and empty
/// directories that are not open.
fn other_hand(r: &mut StdRng, m: &mut Model) -> Option<String> {
    let files: Vec<PathBuf> = m.tree.iter().filter(|x| matches!(x.1, Node::File(_))).map(|x| x.0.clone()).collect();
    let f = files.choose(r)?.clone();
    let open = m.opened_at(&f).is_some();
    match r.gen_range(0, 6) {
        0..=2 => {
            let old = match &m.tree[&f] { Node::File(d) => d.len(), _ => 0 };
            let n = if r.gen() { old } else { r.gen_range(0, 300) };
            let data = payload(r, n);
            // (in place: the file stays the same file)
            std::fs::write(&f, &data).ok()?;
            m.tree.insert(f.clone(), Node::File(data));
            Some(format!("somebody else writes {} bytes to {} (open: {})", n, f.display(), open))
        }
        3 if !open => {
            std::fs::remove_file(&f).ok()?;
            m.tree.remove(&f);
            Some(format!("somebody else removes {}", f.display()))
        }
        4 if !open => {
            let to = f.with_file_name("moved by hand");
            if m.node(&to).is_some() {
                return None;
            }
            std::fs::rename(&f, &to).ok()?;
            m.mv(&f, &to);
            Some(format!("somebody else moves {} to {}", f.display(), to.display()))
        }
        _ => {
            let d = m.root.join(*["d", "d1", "d2"].choose(r).unwrap());
            match m.node(&d) {
                None => {
                    std::fs::create_dir(&d).ok()?;
                    m.tree.insert(d.clone(), Node::Dir);
                }
                Some(Node::Dir) if m.children(&d).is_empty() => {
                    std::fs::remove_dir(&d).ok()?;
                    m.tree.remove(&d);
                }
                _ => return None,
            }
            Some(format!("somebody else creates or removes {}", d.display()))
        }
    }
}
fn tag(op: &Op) -> u8 {
    match op {
        Op::Open { .. } => 0,
        Op::Close { .. } => 1,
        Op::Read { .. } => 2,
        Op::Write { .. } => 3,
        Op::Rename { .. } => 4,
        Op::Remove { .. } => 5,
        Op::RenameUnopened { .. } => 6,
        Op::RemoveUnopened { .. } => 7,
        Op::CreateDir { .. } => 8,
        Op::RenameDir { .. } => 9,
        Op::RemoveDir { .. } => 10,
        Op::List { .. } => 11,
    }
}

/// Searches for an order in which the requests, run one after another, give
/// exactly what was observed and leave the disk as it is.
fn explain(m: &Model, ops: &[Op], obs: &[Obs], now: &BTreeMap<PathBuf, Node>, why: &mut Vec<String>) -> Option<Model> {
    fn go(m: &Model, left: &mut Vec<usize>, ops: &[Op], obs: &[Obs], now: &BTreeMap<PathBuf, Node>, why: &mut Vec<String>) -> Option<Model> {
        if left.is_empty() {
            return match diff(now, &m.tree) {
                None => Some(m.clone()),
                Some(d) => {
                    if why.len() < 4 && !why.contains(&d) {
                        why.push(d);
                    }
                    None
                }
            };
        }
        for k in 0..left.len() {
            let x = left.remove(k);
            let mut m2 = m.clone();
            match m2.step(&ops[x], &obs[x]) {
                Ok(()) => {
                    if let Some(z) = go(&m2, left, ops, obs, now, why) {
                        left.insert(k, x);
                        return Some(z);
                    }
                }
                Err((_, e)) => {
                    let e = truncate(&e, 300);
                    if why.len() < 4 && !why.contains(&e) {
                        why.push(e);
                    }
                }
            }
            left.insert(k, x);
        }
        None
    }
    go(m, &mut (0..ops.len()).collect(), ops, obs, now, why)
}
