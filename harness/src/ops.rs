//! C18 / C19: sequences, batches, transformations and nesting against a model.
use crate::common::*;
use crate::kinds::*;
use crate::rig::*;
use futures::future::FutureExt;
use over_there::core::{
    reply, request, ConnectedClient, LazilyTransformedRequest, Reply, ReplyError, Request, TransformRule,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const FAIL: u8 = 250;
const PANIC: u8 = 251;
const WAIT: u8 = 252;
const MAX_DEPTH: u8 = 5;

// ------------------------------------------------------------ the custom handler
/// What happens to a custom request: recorded with a start and an end stamp.
#[derive(Default)]
struct Book {
    clock: AtomicU64,
    runs: Mutex<Vec<(Vec<u8>, u64, u64)>>,
}
struct Running(Arc<Book>, Vec<u8>, u64);
impl Drop for Running {
    fn drop(&mut self) {
        let end = self.0.clock.fetch_add(1, Ordering::SeqCst);
        self.0.runs.lock().unwrap().push((std::mem::take(&mut self.1), self.2, end));
    }
}

fn answer(data: &[u8]) -> Vec<u8> {
    data.iter().rev().take(40).map(|x| ((*x as u16 + 1) % 250) as u8).collect()
}
fn refusal(data: &[u8]) -> String {
    format!("refused {}", hex(data))
}

fn handler(book: Arc<Book>) -> Handler {
    Arc::new(move |args: request::CustomArgs| {
        let book = book.clone();
        async move {
            let data = args.data;
            let start = book.clock.fetch_add(1, Ordering::SeqCst);
            let _run = Running(book, data.clone(), start);
            if data.len() > 1 && data[0] != WAIT && data[1] % 8 < 5 {
                tokio::time::delay_for(Duration::from_millis((data[1] % 8) as u64)).await;
            }
            match data.get(0) {
                Some(&FAIL) => {
                    let e: Box<dyn std::error::Error> = refusal(&data).into();
                    Err(e)
                }
                Some(&PANIC) => std::panic::resume_unwind(Box::new("planned")),
                Some(&WAIT) => {
                    let p = PathBuf::from(String::from_utf8_lossy(&data[1..]).to_string());
                    let t = Instant::now();
                    while t.elapsed() < Duration::from_secs(20) {
                        if p.exists() {
                            return Ok(reply::CustomArgs::from(b"met".to_vec()));
                        }
                        tokio::time::delay_for(Duration::from_millis(2)).await;
                    }
                    Ok(reply::CustomArgs::from(b"alone".to_vec()))
                }
                _ => Ok(reply::CustomArgs::from(answer(&data))),
            }
        }
        .boxed()
    })
}

// ------------------------------------------------------------ JSON paths (model)
#[derive(Clone, Debug)]
enum Step {
    Key(&'static str),
    Idx(usize),
    Wild,
}
fn render(p: &[Step]) -> String {
    let mut s = String::from("$");
    for x in p {
        match x {
            Step::Key(k) => s.push_str(&format!(".{}", k)),
            Step::Idx(i) => s.push_str(&format!("[{}]", i)),
            Step::Wild => s.push_str("[*]"),
        }
    }
    s
}
fn select<'a>(v: &'a Value, p: &[Step]) -> Vec<&'a Value> {
    if p.is_empty() {
        return vec![v];
    }
    match &p[0] {
        Step::Key(k) => v.as_object().and_then(|o| o.get(*k)).map(|x| select(x, &p[1..])).unwrap_or_default(),
        Step::Idx(i) => v.as_array().and_then(|a| a.get(*i)).map(|x| select(x, &p[1..])).unwrap_or_default(),
        Step::Wild => v.as_array().map(|a| a.iter().flat_map(|x| select(x, &p[1..])).collect()).unwrap_or_default(),
    }
}
fn put(v: &mut Value, p: &[Step], new: &Value) {
    if p.is_empty() {
        *v = new.clone();
        return;
    }
    match &p[0] {
        Step::Key(k) => {
            if let Some(x) = v.as_object_mut().and_then(|o| o.get_mut(*k)) {
                put(x, &p[1..], new)
            }
        }
        Step::Idx(i) => {
            if let Some(x) = v.as_array_mut().and_then(|o| o.get_mut(*i)) {
                put(x, &p[1..], new)
            }
        }
        Step::Wild => {
            if let Some(a) = v.as_array_mut() {
                for x in a {
                    put(x, &p[1..], new)
                }
            }
        }
    }
}

/// A rule as the model sees it; `None` is a path that is not a path.
#[derive(Clone, Debug)]
struct MRule {
    path: Option<Vec<Step>>,
    value: Option<Vec<Step>>,
}
impl MRule {
    fn real(&self) -> TransformRule {
        let f = |p: &Option<Vec<Step>>| p.as_ref().map(|p| render(p)).unwrap_or_else(|| "$.payload[".to_string());
        TransformRule { path: f(&self.path), value: f(&self.value) }
    }
}

// ------------------------------------------------------------ requests (model)
#[derive(Clone, Debug)]
enum Node {
    Leaf(Request),
    Seq(Vec<(Node, Vec<MRule>)>),
    Batch(Vec<Node>),
}
impl Node {
    fn real(&self) -> Request {
        match self {
            Node::Leaf(r) => r.clone(),
            Node::Seq(v) => Request::Sequence(request::SequenceArgs {
                operations: v
                    .iter()
                    .map(|(n, rs)| LazilyTransformedRequest::new(n.real(), rs.iter().map(MRule::real).collect()))
                    .collect(),
            }),
            Node::Batch(v) => Request::Batch(request::BatchArgs { operations: v.iter().map(Node::real).collect() }),
        }
    }
    fn fill(&mut self, fixed: &[(Request, Reply)]) {
        match self {
            Node::Leaf(q) => {
                let n = match q {
                    Request::ListDirContents(a) if a.path.starts_with('?') => a.path[1..].parse::<usize>().unwrap_or(0),
                    _ => return,
                };
                *q = fixed[n % fixed.len()].0.clone();
            }
            Node::Seq(v) => v.iter_mut().for_each(|x| x.0.fill(fixed)),
            Node::Batch(v) => v.iter_mut().for_each(|x| x.fill(fixed)),
        }
    }
    fn shape(&self, out: &mut String) {
        match self {
            Node::Leaf(Request::Custom(a)) => out.push(match a.data.get(0) {
                Some(&FAIL) => 'f',
                Some(&PANIC) => 'p',
                _ => 'c',
            }),
            Node::Leaf(Request::Forward(_)) => out.push('w'),
            Node::Leaf(q) => out.push_str(&format!("l{:x}", h64(&std::mem::discriminant(q)) & 255)),
            Node::Seq(v) => {
                out.push('[');
                for (n, rs) in v {
                    for _ in rs {
                        out.push('r');
                    }
                    n.shape(out)
                }
                out.push(']')
            }
            Node::Batch(v) => {
                out.push('{');
                for n in v {
                    n.shape(out)
                }
                out.push('}')
            }
        }
    }
}

/// What was executed, and in which order it has to be.
#[derive(Clone, Debug)]
enum Tr {
    Leaf(Vec<u8>),
    Seq(Vec<Tr>),
    Par(Vec<Tr>),
}

const ANY: &str = "*";
fn any_error() -> Reply {
    Reply::Error(ReplyError::from(ANY))
}

struct Model {
    version: Reply,
    caps: Reply,
    /// requests whose reply is always this one (any error, where it fails)
    fixed: Vec<(Request, Reply)>,
    applied: AtomicU64,
    refused: AtomicU64,
}
/// The rules of each operation of a sequence are needed after transformation
/// of the enclosing request as well; nested rules are therefore parsed back.
fn parse_rule(r: &TransformRule) -> MRule {
    MRule { path: parse(&r.path), value: parse(&r.value) }
}
fn parse(s: &str) -> Option<Vec<Step>> {
    if s.ends_with("[") {
        return None;
    }
    let mut out = vec![];
    for part in s[1..].split(|c| c == '.' || c == '[').filter(|x| !x.is_empty()) {
        if part == "*]" {
            out.push(Step::Wild)
        } else if part.ends_with(']') {
            out.push(Step::Idx(part[..part.len() - 1].parse().ok()?))
        } else {
            out.push(Step::Key(KEYS.iter().find(|k| **k == part)?))
        }
    }
    Some(out)
}
const KEYS: [&str; 9] = ["payload", "data", "missing", "type", "version", "results", "operations", "raw_request", "capabilities"];

impl Model {
    /// Err = the execution panics (its trace so far).
    fn run(&self, req: &Request, depth: u8) -> Result<(Reply, Tr), Tr> {
        if depth == 0 {
            return Ok((any_error(), Tr::Seq(vec![])));
        }
        let none = Tr::Seq(vec![]);
        Ok(match req {
            Request::Heartbeat => (Reply::Heartbeat, none),
            Request::Version => (self.version.clone(), none),
            Request::Capabilities => (self.caps.clone(), none),
            Request::Forward(_) => (Reply::Ignore, none),
            Request::Custom(a) => {
                let t = Tr::Leaf(a.data.clone());
                match a.data.get(0) {
                    Some(&FAIL) => (Reply::Error(ReplyError::from(refusal(&a.data))), t),
                    Some(&PANIC) => return Err(t),
                    _ => (Reply::Custom(reply::CustomArgs::from(answer(&a.data))), t),
                }
            }
            Request::Sequence(s) => {
                let mut results: Vec<Reply> = vec![];
                let mut trs = vec![];
                for op in &s.operations {
                    let todo = match results.last() {
                        None => Some(op.raw_request.clone()),
                        Some(Reply::Error(_)) => None,
                        Some(prev) => {
                            let q = self.transform(op, prev);
                            if !op.rules.is_empty() {
                                let n = if q.is_some() { &self.applied } else { &self.refused };
                                n.fetch_add(1, Ordering::Relaxed);
                            }
                            q
                        }
                    };
                    match todo {
                        None => results.push(any_error()),
                        Some(q) => match self.run(&q, depth - 1) {
                            Ok((r, t)) => {
                                trs.push(t);
                                results.push(nested(r));
                            }
                            Err(t) => {
                                trs.push(t);
                                return Err(Tr::Seq(trs));
                            }
                        },
                    }
                }
                (Reply::Sequence(reply::SequenceArgs { results }), Tr::Seq(trs))
            }
            Request::Batch(b) => {
                let mut results = vec![];
                let mut trs = vec![];
                for q in &b.operations {
                    match self.run(q, depth - 1) {
                        Ok((r, t)) => {
                            trs.push(t);
                            results.push(nested(r));
                        }
                        Err(t) => {
                            trs.push(t);
                            results.push(any_error());
                        }
                    }
                }
                (Reply::Batch(reply::BatchArgs { results }), Tr::Par(trs))
            }
            q => match self.fixed.iter().find(|x| x.0 == *q) {
                Some((_, r)) => (r.clone(), none),
                None => (any_error(), none),
            },
        })
    }
    fn transform(&self, op: &LazilyTransformedRequest, prev: &Reply) -> Option<Request> {
        let from = serde_json::to_value(prev).ok()?;
        let mut v = serde_json::to_value(&op.raw_request).ok()?;
        for r in &op.rules {
            let r = parse_rule(r);
            let vals = select(&from, &r.value?);
            if vals.len() != 1 {
                return None;
            }
            put(&mut v, &r.path?, vals[0]);
        }
        serde_json::from_value(v).ok()
    }
}
fn nested(r: Reply) -> Reply {
    match r {
        Reply::Ignore => any_error(),
        r => r,
    }
}

fn same(exp: &Reply, got: &Reply) -> Result<(), String> {
    match (exp, got) {
        (Reply::Error(ReplyError::Generic(e)), Reply::Error(_)) if e.msg == ANY => Ok(()),
        (Reply::Sequence(reply::SequenceArgs { results: a }), Reply::Sequence(reply::SequenceArgs { results: b }))
        | (Reply::Batch(reply::BatchArgs { results: a }), Reply::Batch(reply::BatchArgs { results: b })) => {
            if a.len() != b.len() {
                return Err(format!("{} results instead of {}", b.len(), a.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same(x, y).map_err(|e| format!("result {}: {}", i, e))?;
            }
            Ok(())
        }
        (x, y) if x == y => Ok(()),
        (x, y) => Err(format!("expected {:?}, got {:?}", x, y)),
    }
}

fn leaves<'a>(t: &'a Tr, out: &mut Vec<&'a Vec<u8>>) {
    match t {
        Tr::Leaf(d) => out.push(d),
        Tr::Seq(v) | Tr::Par(v) => v.iter().for_each(|x| leaves(x, out)),
    }
}
/// (first start, last end) of everything below, or the broken order.
fn span(t: &Tr, at: &HashMap<Vec<u8>, (u64, u64)>) -> Result<Option<(u64, u64)>, String> {
    match t {
        Tr::Leaf(d) => Ok(at.get(d).cloned()),
        Tr::Seq(v) => {
            let mut all: Option<(u64, u64)> = None;
            for x in v {
                if let Some((s, e)) = span(x, at)? {
                    if let Some((s0, e0)) = all {
                        if s < e0 {
                            return Err(format!("an operation of a sequence began at {} before the one ahead of it ended at {}", s, e0));
                        }
                        all = Some((s0, e));
                    } else {
                        all = Some((s, e));
                    }
                }
            }
            Ok(all)
        }
        Tr::Par(v) => {
            let mut all: Option<(u64, u64)> = None;
            for x in v {
                if let Some((s, e)) = span(x, at)? {
                    all = Some(all.map(|(a, b)| (a.min(s), b.max(e))).unwrap_or((s, e)));
                }
            }
            Ok(all)
        }
    }
}

// ------------------------------------------------------------ generation
fn custom(data: Vec<u8>) -> Request {
    Request::Custom(request::CustomArgs::from(data))
}
fn gen_data(r: &mut StdRng, panics: bool) -> Vec<u8> {
    let n = match r.gen_range(0, 12) {
        0 => r.gen_range(0, 3),
        _ => r.gen_range(6, 20),
    };
    let mut v = rand_bytes(r, n);
    for x in v.iter_mut() {
        *x %= 250;
    }
    if !v.is_empty() && r.gen_bool(0.08) {
        v[0] = FAIL;
    } else if !v.is_empty() && panics && r.gen_bool(0.06) {
        v[0] = PANIC;
    }
    v
}
fn gen_steps(r: &mut StdRng, value: bool) -> Vec<Step> {
    use Step::*;
    let i = r.gen_range(0, 4);
    let data = vec![Key("payload"), Key("data")];
    let mut item = data.clone();
    item.push(Idx(r.gen_range(0, 10)));
    match r.gen_range(0, 16) {
        0..=4 => data,
        5..=8 => item,
        9 => vec![Key("payload")],
        10 => vec![Key("payload"), Key("missing")],
        11 if value => vec![Key("payload"), Key("data"), Wild],
        12 if value => vec![Key("payload"), Key("results"), Idx(i), Key("payload"), Key("data")],
        12 => vec![Key("payload"), Key("operations"), Idx(i), Key("payload"), Key("data")],
        13 if value => vec![Key("payload"), Key("results"), Wild, Key("payload"), Key("data")],
        13 => vec![Key("payload"), Key("operations"), Wild, Key("raw_request"), Key("payload"), Key("data")],
        14 if value => vec![Key("type")],
        14 => vec![Key("payload"), Key("operations"), Idx(i), Key("raw_request"), Key("payload"), Key("data")],
        15 if value => vec![Key("payload"), Key("version")],
        _ => data,
    }
}
fn gen_rules(r: &mut StdRng) -> Vec<MRule> {
    if r.gen_bool(0.06) {
        // many that work out, whatever the lengths of the data
        let item = |r: &mut StdRng, n| Some(vec![Step::Key("payload"), Step::Key("data"), Step::Idx(r.gen_range(0, n))]);
        let n = r.gen_range(6, 60);
        return (0..n).map(|_| MRule { path: item(r, 20), value: item(r, 6) }).collect();
    }
    let n = match r.gen_range(0, 8) {
        0..=2 => 0,
        3..=6 => 1,
        _ => r.gen_range(2, 5),
    };
    (0..n)
        .map(|_| {
            // pairs that make sense together most of the time
            if r.gen_bool(0.6) {
                let idx = r.gen_bool(0.5);
                let p = |r: &mut StdRng| {
                    let mut v = vec![Step::Key("payload"), Step::Key("data")];
                    if idx {
                        v.push(Step::Idx(r.gen_range(0, 7)));
                    }
                    Some(v)
                };
                MRule { path: p(r), value: p(r) }
            } else {
                let one = |r: &mut StdRng, v: bool| if r.gen_bool(0.03) { None } else { Some(gen_steps(r, v)) };
                MRule { path: one(r, false), value: one(r, true) }
            }
        })
        .collect()
}
/// Requests on files and programs: some of them answered the same way each
/// time, the others failing in different ways.
fn fixed(root: &std::path::Path, opened: &reply::FileOpenedArgs) -> Vec<(Request, Reply)> {
    let at = |x: &str| root.join(x).display().to_string();
    let (id, sig) = (opened.id, opened.sig);
    let other = id ^ 1;
    let err = any_error();
    vec![
        (
            Request::ReadFile(request::ReadFileArgs { id, sig }),
            Reply::FileContents(reply::FileContentsArgs { id, contents: vec![1, 2, 3], ..Default::default() }),
        ),
        (
            Request::ListDirContents(request::ListDirContentsArgs { path: at("void") }),
            Reply::DirContentsList(reply::DirContentsListArgs { path: at("void"), entries: vec![] }),
        ),
        (Request::ReadFile(request::ReadFileArgs { id, sig: sig ^ 1 }), err.clone()),
        (Request::WriteFile(request::WriteFileArgs { id, sig: sig ^ 1, contents: vec![9] }), err.clone()),
        (Request::CloseFile(request::CloseFileArgs { id, sig: sig ^ 1 }), err.clone()),
        (Request::RemoveFile(request::RemoveFileArgs { id, sig: sig ^ 1 }), err.clone()),
        (Request::RenameFile(request::RenameFileArgs { id, sig: sig ^ 1, to: at("g") }), err.clone()),
        (Request::ReadFile(request::ReadFileArgs { id: other, sig }), err.clone()),
        (Request::WriteFile(request::WriteFileArgs { id: other, sig, contents: vec![] }), err.clone()),
        (Request::ListDirContents(request::ListDirContentsArgs { path: at("none") }), err.clone()),
        (Request::CreateDir(request::CreateDirArgs { path: at("none/below"), include_components: false }), err.clone()),
        (Request::RemoveDir(request::RemoveDirArgs { path: at("."), non_empty: false }), err.clone()),
        (Request::RenameDir(request::RenameDirArgs { from: at("none"), to: at("some") }), err.clone()),
        (
            Request::OpenFile(request::OpenFileArgs { path: at("none"), create_if_missing: false, write_access: true, read_access: true }),
            err.clone(),
        ),
        (Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: at("none"), to: at("some") }), err.clone()),
        (Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: at("none") }), err.clone()),
        (Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: at("f") }), err.clone()),
        (
            Request::ExecProc(request::ExecProcArgs { command: at("none"), args: vec![], stdin: true, stdout: true, stderr: true, current_dir: None }),
            err.clone(),
        ),
        (Request::WriteProcStdin(request::WriteProcStdinArgs { id: 0x7fff_fff0, input: vec![1] }), err.clone()),
        (Request::ReadProcStdout(request::ReadProcStdoutArgs { id: 0x7fff_fff0 }), err.clone()),
        (Request::KillProc(request::KillProcArgs { id: 0x7fff_fff0 }), err.clone()),
        (Request::ReadProcStatus(request::ReadProcStatusArgs { id: 0x7fff_fff0 }), err),
    ]
}
fn gen_node(r: &mut StdRng, level: u8, budget: &mut i32, panics: bool) -> Node {
    *budget -= 1;
    let deep = match level {
        0 => true,
        1 | 2 => r.gen_bool(0.35),
        3 | 4 => r.gen_bool(0.3),
        _ => r.gen_bool(0.3),
    };
    if !deep || *budget <= 0 || level > 7 {
        return Node::Leaf(match r.gen_range(0, 20) {
            0 => Request::Heartbeat,
            1 => Request::Version,
            2 => Request::Capabilities,
            3 => Request::Forward(request::ForwardArgs { address: loopback(9), request: Box::new(Request::Version) }),
            // stands for one of the fixed requests
            4 => Request::ListDirContents(request::ListDirContentsArgs { path: format!("?{}", r.gen_range(0, 2)) }),
            5 => Request::ListDirContents(request::ListDirContentsArgs { path: format!("?{}", r.gen::<u16>()) }),
            _ => custom(gen_data(r, panics)),
        });
    }
    let n = match r.gen_range(0, 12) {
        0 => 0,
        1 => 1,
        2 => 14,
        _ => r.gen_range(2, 7),
    };
    if r.gen_bool(0.5) {
        gen_seq(r, level, budget, n, panics)
    } else {
        Node::Batch((0..n).map(|_| gen_node(r, level + 1, budget, panics)).collect())
    }
}
fn gen_seq(r: &mut StdRng, level: u8, budget: &mut i32, n: usize, panics: bool) -> Node {
    Node::Seq((0..n).map(|_| (gen_node(r, level + 1, budget, panics), gen_rules(r))).collect())
}
/// A single chain of nested sequences and batches around one operation.
fn gen_chain(r: &mut StdRng, first_seq: bool) -> Node {
    let n = r.gen_range(1, 9);
    let mut node = Node::Leaf(custom(gen_data(r, false)));
    for i in 0..n {
        let seq = if i == n - 1 { first_seq } else { r.gen_bool(0.5) };
        let mut side = vec![node];
        for _ in 0..r.gen_range(0, 2) {
            let d = gen_data(r, false);
            let at = r.gen_range(0, side.len() + 1);
            side.insert(at, Node::Leaf(custom(d)));
        }
        node = if seq { Node::Seq(side.into_iter().map(|x| (x, vec![])).collect()) } else { Node::Batch(side) };
    }
    node
}

// ------------------------------------------------------------ the check
struct Bench {
    rt: tokio::runtime::Runtime,
    srv: Srv,
    cl: ConnectedClient,
    book: Arc<Book>,
    model: Model,
    udp: bool,
    _tmp: tempfile::TempDir,
}
impl Bench {
    fn open(r: &mut StdRng) -> Option<Bench> {
        let udp = r.gen_bool(0.3);
        let proto = if udp { Proto::Udp } else { Proto::Tcp };
        let book = Arc::new(Book::default());
        let mut cfg = SrvCfg::noop(proto);
        cfg.handler = Some(handler(book.clone()));
        let (auth, crypt): (DynAuth, DynCrypt) = (cfg.auth.clone(), cfg.crypt.clone());
        let srv = cfg.start().ok()?;
        let mut rt = client_runtime(2);
        let mut cl = rt.block_on(connect(proto, srv.addr, &auth, &crypt)).ok()?;
        cl.timeout = Duration::from_secs(60);
        let version = rt.block_on(cl.ask(Request::Version)).ok()?;
        let caps = rt.block_on(cl.ask(Request::Capabilities)).ok()?;
        let tmp = tempfile::tempdir().ok()?;
        let root = std::fs::canonicalize(tmp.path()).ok()?;
        std::fs::create_dir(root.join("void")).ok()?;
        std::fs::write(root.join("f"), [1, 2, 3]).ok()?;
        let opened = rt.block_on(cl.ask_open_file(root.join("f").display().to_string())).ok()?;
        let fixed = fixed(&root, &opened);
        Some(Bench { rt, srv, cl, book, model: Model { version, caps, fixed, applied: Default::default(), refused: Default::default() }, udp, _tmp: tmp })
    }
    fn close(self) {
        drop(self.cl);
        self.rt.shutdown_timeout(Duration::from_millis(300));
        self.srv.stop();
    }
}

fn tree_case(c: &Ctx, seq: bool, i: u64) {
    let mut r = c.rng("trees", i);
    let mut b = match Bench::open(&mut r) {
        Some(b) => b,
        None => return c.inconclusive("no server"),
    };
    for k in 0..15 {
        let mut node = match r.gen_range(0, 5) {
            0 => gen_chain(&mut r, seq),
            // a long one in which little goes wrong
            1 if !b.udp && r.gen_bool(0.2) => {
                let n = r.gen_range(30, 500);
                let last = r.gen_range(n / 2, 2 * n);
                let mut all = vec![];
                for k in 0..n {
                    let len = r.gen_range(6, 12);
                    let mut v = rand_bytes(&mut r, len);
                    v.iter_mut().for_each(|x| *x %= 200);
                    v[0] = if k == last { FAIL } else { v[0] % 50 };
                    let rules = if r.gen_bool(0.2) {
                        vec![MRule { path: Some(vec![Step::Key("payload"), Step::Key("data"), Step::Idx(5)]), value: Some(vec![Step::Key("payload"), Step::Key("data"), Step::Idx(r.gen_range(1, 6))]) }]
                    } else {
                        vec![]
                    };
                    all.push((Node::Leaf(custom(v)), rules));
                }
                c.count("long_trees", 1);
                if seq { Node::Seq(all) } else { Node::Batch(all.into_iter().map(|x| x.0).collect()) }
            }
            _ => {
                let mut budget = 30;
                let n = match r.gen_range(0, 10) {
                    0 => r.gen_range(0, 2),
                    1 => 25,
                    _ => r.gen_range(2, 10),
                };
                if seq {
                    gen_seq(&mut r, 0, &mut budget, n, true)
                } else {
                    Node::Batch((0..n).map(|_| gen_node(&mut r, 1, &mut budget, true)).collect())
                }
            }
        };
        node.fill(&b.model.fixed);
        let req = node.real();
        // a panic that nothing contains ends the server: handlers must not
        let (exp, tr) = match b.model.run(&req, MAX_DEPTH) {
            Ok(x) => x,
            Err(_) => {
                c.count("skipped_uncontained_panics", 1);
                continue;
            }
        };
        b.book.runs.lock().unwrap().clear();
        let got = match b.rt.block_on(b.cl.ask(req.clone())) {
            Ok(x) => x,
            Err(e) => {
                let d = format!("{:?}", e);
                if b.udp {
                    c.inconclusive("no reply over UDP");
                    break;
                }
                c.violation("no-result", &format!("{} for {}", d, truncate(&format!("{:?}", req), 800)), json!({"case": i, "step": k}));
                break;
            }
        };
        c.eval();
        let mut shape = String::new();
        node.shape(&mut shape);
        let wit = || json!({"case": i, "step": k, "request": req, "expected": exp, "got": got});
        if let Err(e) = same(&exp, &got) {
            c.violation(if seq { "sequence-result" } else { "batch-result" }, &format!("{} ({})", e, shape), wit());
            break;
        }
        let runs = b.book.runs.lock().unwrap().clone();
        let mut want = vec![];
        leaves(&tr, &mut want);
        let mut want: Vec<Vec<u8>> = want.into_iter().cloned().collect();
        let mut ran: Vec<Vec<u8>> = runs.iter().map(|x| x.0.clone()).collect();
        want.sort();
        ran.sort();
        if want != ran {
            c.violation(
                "operations-run",
                &format!("{} operations reached the handler, {} should have ({})", ran.len(), want.len(), shape),
                json!({"case": i, "step": k, "request": req, "ran": ran, "should": want}),
            );
            break;
        }
        let mut at: HashMap<Vec<u8>, (u64, u64)> = HashMap::new();
        let mut twice = vec![];
        for (d, s, e) in &runs {
            if at.insert(d.clone(), (*s, *e)).is_some() {
                twice.push(d.clone());
            }
        }
        for d in twice {
            at.remove(&d);
        }
        if let Err(e) = span(&tr, &at) {
            c.violation("sequence-order", &format!("{} ({})", e, shape), wit());
            break;
        }
        c.count("operations_observed", runs.len() as u64);
        c.count("transformations_applied", b.model.applied.swap(0, Ordering::Relaxed));
        c.count("transformations_refused", b.model.refused.swap(0, Ordering::Relaxed));
        let deep = {
            let (mut m, mut d) = (0, 0i32);
            for ch in shape.chars() {
                if ch == '[' || ch == '{' {
                    d += 1;
                    m = m.max(d)
                } else if ch == ']' || ch == '}' {
                    d -= 1
                }
            }
            m
        };
        c.count(&format!("nesting_{}", deep.min(8)), 1);
        if shape.len() > 4 {
            c.distinct(&(shape.clone(), b.udp));
        }
        if k == 3 {
            c.sample(json!({"shape": shape, "operations": runs.len()}));
        }
    }
    b.close();
}

/// Sequences of file operations that pass handles and signatures on.
fn file_sequence(c: &Ctx, i: u64) {
    let mut r = c.rng("files", i);
    let mut b = match Bench::open(&mut r) {
        Some(b) => b,
        None => return c.inconclusive("no server"),
    };
    let tmp = tempfile::tempdir().expect("tempdir");
    for k in 0..6 {
        let p = tmp.path().join(format!("f{}", k));
        let path = p.display().to_string();
        let rule = |p: &str, v: &str| TransformRule { path: p.into(), value: v.into() };
        let handle = || vec![rule("$.payload.id", "$.payload.id"), rule("$.payload.sig", "$.payload.sig")];
        let mut ops = vec![Request::OpenFile(request::OpenFileArgs {
            path: path.clone(),
            create_if_missing: true,
            write_access: true,
            read_access: true,
        })
        .into_lazily_transformed(vec![])];
        let mut contents: Vec<u8> = vec![];
        let mut exp: Vec<&str> = vec!["open"];
        let broken = if r.gen_bool(0.4) { Some(r.gen_range(1, 5)) } else { None };
        let mut dead = false;
        let mut moved = false;
        let p2 = tmp.path().join(format!("g{}", k));
        let n = r.gen_range(2, 9);
        for s in 1..n {
            if broken == Some(s) {
                // a handle that was never issued
                ops.push(
                    Request::WriteFile(request::WriteFileArgs { id: 0xdead_0000, sig: 1, contents: b"never".to_vec() })
                        .into_lazily_transformed(vec![]),
                );
                exp.push("error");
                dead = true;
                continue;
            }
            let last_read = ops.len() > 1 && matches!(ops.last().unwrap().raw_request, Request::ReadFile(_));
            if last_read {
                // a read's reply has no signature: opening again gives one
                ops.push(
                    Request::OpenFile(request::OpenFileArgs {
                        path: if moved { p2.display().to_string() } else { path.clone() },
                        create_if_missing: false,
                        write_access: true,
                        read_access: true,
                    })
                    .into_lazily_transformed(vec![]),
                );
                exp.push(if dead { "error" } else { "open" });
                continue;
            }
            match r.gen_range(0, 5) {
                0..=2 => {
                    let len = r.gen_range(0, 3000);
                    let data = rand_bytes(&mut r, len);
                    ops.push(
                        Request::WriteFile(request::WriteFileArgs { id: 0, sig: 0, contents: data.clone() })
                            .into_lazily_transformed(handle()),
                    );
                    if !dead {
                        contents = data;
                    }
                    exp.push(if dead { "error" } else { "write" });
                }
                3 if !moved && !dead => {
                    moved = true;
                    ops.push(
                        Request::RenameFile(request::RenameFileArgs { id: 0, sig: 0, to: p2.display().to_string() })
                            .into_lazily_transformed(handle()),
                    );
                    exp.push("rename");
                }
                _ => {
                    ops.push(Request::ReadFile(request::ReadFileArgs { id: 0, sig: 0 }).into_lazily_transformed(handle()));
                    exp.push(if dead { "error" } else { "read" });
                }
            }
        }
        // the last read, if any, sees what was written before it
        let results = match b.rt.block_on(b.cl.ask(Request::Sequence(request::SequenceArgs { operations: ops }))) {
            Ok(Reply::Sequence(a)) => a.results,
            x => {
                if b.udp {
                    c.inconclusive("no reply over UDP");
                } else {
                    c.violation("file-sequence", &format!("{:?}", x), json!({"case": i}));
                }
                break;
            }
        };
        c.eval();
        let kinds: Vec<&str> = results
            .iter()
            .map(|x| match x {
                Reply::FileOpened(_) => "open",
                Reply::FileWritten(_) => "write",
                Reply::FileRenamed(_) => "rename",
                Reply::FileContents(_) => "read",
                Reply::Error(_) => "error",
                _ => "other",
            })
            .collect();
        if kinds != exp {
            c.violation("file-sequence", &format!("expected {:?}, got {:?}", exp, kinds), json!({"case": i, "results": results}));
            break;
        }
        let on_disk = std::fs::read(if moved { &p2 } else { &p }).ok();
        if on_disk.as_ref() != Some(&contents) {
            c.violation("file-sequence-disk", &format!("{:?}: the file does not hold what was written last", exp), json!({"case": i}));
            break;
        }
        c.count("file_sequences", 1);
        c.distinct(&exp);
    }
    b.close();
}

/// A batch whose operations can only finish if they make progress together.
fn rendezvous(c: &Ctx, i: u64, stall: &Stall) {
    let mut r = c.rng("rendezvous", i);
    let mut b = match Bench::open(&mut r) {
        Some(b) => b,
        None => return c.inconclusive("no server"),
    };
    let udp = b.udp;
    let tmp = tempfile::tempdir().expect("tempdir");
    stall.reset();
    let p = tmp.path().join("flag").display().to_string();
    let mut w = vec![WAIT];
    w.extend(p.as_bytes());
    let wait = custom(w);
    let make = match r.gen_range(0, 3) {
        0 => Request::CreateDir(request::CreateDirArgs { path: p.clone(), include_components: false }),
        1 => Request::ExecProc(request::ExecProcArgs {
            command: "touch".into(),
            args: vec![p.clone()],
            stdin: false,
            stdout: false,
            stderr: false,
            current_dir: None,
        }),
        _ => Request::OpenFile(request::OpenFileArgs {
            path: p.clone(),
            create_if_missing: true,
            write_access: true,
            read_access: true,
        }),
    };
    let mut operations = vec![];
    let some = |r: &mut StdRng| if r.gen_bool(0.25) { r.gen_range(4, if udp { 80 } else { 600 }) } else { r.gen_range(0, 4) };
    for _ in 0..some(&mut r) {
        operations.push(Request::Heartbeat);
    }
    let at = operations.len();
    operations.push(wait);
    for _ in 0..some(&mut r) {
        operations.push(Request::Version);
    }
    let make = match r.gen_range(0, 3) {
        0 => Request::Batch(request::BatchArgs { operations: vec![Request::Heartbeat, make] }),
        1 => Request::Sequence(request::SequenceArgs {
            operations: vec![Request::Heartbeat.into_lazily_transformed(vec![]), make.into_lazily_transformed(vec![])],
        }),
        _ => make,
    };
    operations.push(make);
    let t = Instant::now();
    let x = b.rt.block_on(b.cl.ask(Request::Batch(request::BatchArgs { operations })));
    c.eval();
    match x {
        Ok(Reply::Batch(a)) if a.results.get(at) == Some(&Reply::Custom(reply::CustomArgs::from(b"met".to_vec()))) => {
            c.count("rendezvous_met", 1);
        }
        Ok(Reply::Batch(a)) if a.results.get(at) == Some(&Reply::Custom(reply::CustomArgs::from(b"alone".to_vec()))) => {
            if stall.worst_ms() < 3000 {
                c.violation("batch-not-parallel", "an operation of a batch waited 20 s for one behind it to take effect", json!({"case": i}));
            } else {
                c.inconclusive("the machine stalled");
            }
        }
        x if b.udp && x.is_err() => c.inconclusive("no reply over UDP"),
        x => c.violation("batch-rendezvous", &truncate(&format!("{:?} after {:?}", x, t.elapsed()), 600), json!({"case": i})),
    }
    b.close();
}

pub fn c18(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(260, 20000), Duration::from_secs(ctx.pick(25, 400)), move |i| tree_case(&c, true, i));
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(80, 4000), Duration::from_secs(ctx.pick(15, 150)), move |i| file_sequence(&c, i));
    ctx.report_panics("sequences were executed");
    ctx.finish(
        "seeded request trees (0-25 operations per level, nested up to 9 levels, transformation rules with matching, \
         missing, ambiguous and malformed paths, failing and panicking handlers) sent as one sequence to a real \
         server over TCP and UDP: reply compared with an independent evaluation, executed operations and their order \
         compared with the handler's own record; file sequences that pass handles and signatures on, compared with \
         the disk; distinct by tree shape",
        1000,
        &["JSON paths are limited to keys, indices and [*]"],
    )
}
pub fn c19(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(260, 20000), Duration::from_secs(ctx.pick(25, 400)), move |i| tree_case(&c, false, i));
    let c = ctx.clone();
    let stall = Stall::start();
    par_cases(ctx, ctx.pick(80, 3000), Duration::from_secs(ctx.pick(30, 150)), move |i| rendezvous(&c, i, &stall));
    ctx.report_panics("batches were executed");
    ctx.finish(
        "seeded request trees as for C18 sent as one batch; plus batches in which a custom operation waits for the \
         effect (file, directory, process) of a later one; distinct by tree shape",
        1000,
        &[],
    )
}
