//! C20 / C21: messages and errors survive being written down and read back.
use crate::common::*;
use crate::rig::*;
use over_there::cli::format::{convert_text, format_content, FormatOption};
use over_there::core::{
    reply::{self, *},
    request::{self, *},
    AskError, Content, ExecAskError, FileAskError, Header, LazilyTransformedRequest, Msg, RemoteProc, Reply, ReplyError, Request,
    TransformRule,
};
use rand::{rngs::StdRng, Rng};
use serde_json::json;
use std::collections::HashMap;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------ generators
fn n32(r: &mut StdRng) -> u32 {
    match r.gen_range(0, 9) {
        0 => 0,
        1 => u32::max_value(),
        2 => 0x8000_0000,
        3 => 23 + r.gen_range(0, 3),
        4 => 254 + r.gen_range(0, 4),
        5 => 65_534 + r.gen_range(0, 4),
        _ => r.gen(),
    }
}
fn i32s(r: &mut StdRng) -> i32 {
    match r.gen_range(0, 7) {
        0 => i32::min_value(),
        1 => i32::max_value(),
        2 => -1,
        3 => 0,
        4 => r.gen_range(-300, 300),
        _ => r.gen(),
    }
}
pub fn text(r: &mut StdRng) -> String {
    let n = match r.gen_range(0, 8) {
        0 => 0,
        1 => r.gen_range(20, 30),
        2 => r.gen_range(250, 260),
        _ => r.gen_range(1, 16),
    };
    match r.gen_range(0, 7) {
        0 => (0..n).map(|_| r.gen::<char>()).collect(),
        1 => (0..n).map(|_| (r.gen_range(0, 128) as u8) as char).collect(),
        2 => (0..n).map(|_| ['"', '\\', '/', '\n', '\r', '\t', '\0', '\u{7f}', '\u{2028}', '(', ')', ';', '#', '|', '\'', ' '][r.gen_range(0, 16)]).collect(),
        3 => ["true", "null", "12", "-1.5", "heartbeat_request", "type", "payload", "#t", "nil", "()", "\u{feff}x", "é́", "👩‍👩‍👧"][r.gen_range(0, 13)].to_string(),
        _ => (0..n).map(|_| (b'a' + r.gen_range(0, 26)) as char).collect(),
    }
}
pub fn bytes(r: &mut StdRng) -> Vec<u8> {
    let n = match r.gen_range(0, 8) {
        0 => 0,
        1 => r.gen_range(22, 27),
        2 => r.gen_range(250, 260),
        3 => r.gen_range(0, 3000),
        _ => r.gen_range(1, 20),
    };
    payload(r, n)
}
fn vecof<T>(r: &mut StdRng, f: impl Fn(&mut StdRng) -> T) -> Vec<T> {
    let n = match r.gen_range(0, 8) {
        0 | 1 => 0,
        2 => r.gen_range(20, 28),
        _ => r.gen_range(1, 4),
    };
    (0..n).map(|_| f(r)).collect()
}
fn opt<T>(r: &mut StdRng, f: impl Fn(&mut StdRng) -> T) -> Option<T> {
    if r.gen_bool(0.4) {
        None
    } else {
        Some(f(r))
    }
}
fn address(r: &mut StdRng) -> SocketAddr {
    let ip: IpAddr = match r.gen_range(0, 5) {
        0 => Ipv6Addr::from(r.gen::<u128>()).into(),
        1 => Ipv6Addr::LOCALHOST.into(),
        2 => Ipv4Addr::from(r.gen::<u32>()).to_ipv6_mapped().into(),
        _ => Ipv4Addr::from(r.gen::<u32>()).into(),
    };
    SocketAddr::new(ip, r.gen())
}
pub const KINDS: [io::ErrorKind; 18] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Interrupted,
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
];
fn ser_kind(r: &mut StdRng) -> SerErrorKind {
    match r.gen_range(0, 19) {
        18 => SerErrorKind::NonExhaustive,
        k => KINDS[k].into(),
    }
}
fn reply_error(r: &mut StdRng) -> ReplyError {
    match r.gen_range(0, 3) {
        0 => ReplyError::Generic(GenericErrorArgs { msg: text(r) }),
        1 => ReplyError::Io(IoErrorArgs { description: text(r), os_code: opt(r, i32s), error_kind: ser_kind(r) }),
        _ => ReplyError::FileSigChanged(FileSigChangedArgs { id: n32(r), sig: n32(r) }),
    }
}
pub const REQUESTS: u32 = 27;
pub fn gen_request(r: &mut StdRng, which: u32, depth: u32) -> Request {
    match which {
        0 => Request::Heartbeat,
        1 => Request::Version,
        2 => Request::Capabilities,
        3 => Request::CreateDir(CreateDirArgs { path: text(r), include_components: r.gen() }),
        4 => Request::RenameDir(RenameDirArgs { from: text(r), to: text(r) }),
        5 => Request::RemoveDir(RemoveDirArgs { path: text(r), non_empty: r.gen() }),
        6 => Request::ListDirContents(ListDirContentsArgs { path: text(r) }),
        7 => Request::OpenFile(OpenFileArgs { path: text(r), create_if_missing: r.gen(), write_access: r.gen(), read_access: r.gen() }),
        8 => Request::CloseFile(CloseFileArgs { id: n32(r), sig: n32(r) }),
        9 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: text(r), to: text(r) }),
        10 => Request::RenameFile(RenameFileArgs { id: n32(r), sig: n32(r), to: text(r) }),
        11 => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: text(r) }),
        12 => Request::RemoveFile(RemoveFileArgs { id: n32(r), sig: n32(r) }),
        13 => Request::ReadFile(ReadFileArgs { id: n32(r), sig: n32(r) }),
        14 => Request::WriteFile(WriteFileArgs { id: n32(r), sig: n32(r), contents: bytes(r) }),
        15 => Request::ExecProc(ExecProcArgs {
            command: text(r),
            args: vecof(r, text),
            stdin: r.gen(),
            stdout: r.gen(),
            stderr: r.gen(),
            current_dir: opt(r, text),
        }),
        16 => Request::WriteProcStdin(WriteProcStdinArgs { id: n32(r), input: bytes(r) }),
        17 => Request::ReadProcStdout(ReadProcStdoutArgs { id: n32(r) }),
        18 => Request::ReadProcStderr(ReadProcStderrArgs { id: n32(r) }),
        19 => Request::KillProc(KillProcArgs { id: n32(r) }),
        20 => Request::ReadProcStatus(ReadProcStatusArgs { id: n32(r) }),
        21 => Request::Custom(request::CustomArgs { data: bytes(r) }),
        22 => Request::InternalDebug(request::InternalDebugArgs { input: bytes(r) }),
        _ if depth == 0 => Request::Heartbeat,
        23 | 26 => Request::Sequence(request::SequenceArgs {
            operations: vecof(r, |r| {
                let k = r.gen_range(0, REQUESTS);
                let d = r.gen_range(0, depth);
                LazilyTransformedRequest::new(gen_request(r, k, d), vecof(r, |r| TransformRule { path: text(r), value: text(r) }))
            }),
        }),
        24 => Request::Batch(request::BatchArgs {
            operations: vecof(r, |r| {
                let k = r.gen_range(0, REQUESTS);
                let d = r.gen_range(0, depth);
                gen_request(r, k, d)
            }),
        }),
        _ => {
            let k = r.gen_range(0, REQUESTS);
            Request::Forward(request::ForwardArgs { address: address(r), request: Box::new(gen_request(r, k, depth - 1)) })
        }
    }
}
pub const REPLIES: u32 = 28;
pub fn gen_reply(r: &mut StdRng, which: u32, depth: u32) -> Reply {
    match which {
        0 => Reply::Heartbeat,
        1 => Reply::Version(VersionArgs { version: text(r) }),
        2 => Reply::Capabilities(reply::CapabilitiesArgs {
            capabilities: vecof(r, |r| match r.gen_range(0, 4) {
                0 => Capability::Custom,
                1 => Capability::FileSystem,
                2 => Capability::Exec,
                _ => Capability::Forward,
            }),
        }),
        3 => Reply::DirCreated(DirCreatedArgs { path: text(r) }),
        4 => Reply::DirRenamed(DirRenamedArgs { from: text(r), to: text(r) }),
        5 => Reply::DirRemoved(DirRemovedArgs { path: text(r) }),
        6 => Reply::DirContentsList(DirContentsListArgs {
            path: text(r),
            entries: vecof(r, |r| DirEntry { path: text(r), is_file: r.gen(), is_dir: r.gen(), is_symlink: r.gen() }),
        }),
        7 => Reply::FileOpened(FileOpenedArgs { id: n32(r), sig: n32(r), path: text(r), read: r.gen(), write: r.gen() }),
        8 => Reply::FileClosed(FileClosedArgs { id: n32(r) }),
        9 => Reply::UnopenedFileRenamed(UnopenedFileRenamedArgs { from: text(r), to: text(r) }),
        10 => Reply::FileRenamed(FileRenamedArgs { id: n32(r), sig: n32(r) }),
        11 => Reply::UnopenedFileRemoved(UnopenedFileRemovedArgs { path: text(r) }),
        12 => Reply::FileRemoved(FileRemovedArgs { id: n32(r), sig: n32(r) }),
        13 => Reply::FileContents(FileContentsArgs { id: n32(r), contents: bytes(r) }),
        14 => Reply::FileWritten(FileWrittenArgs { id: n32(r), sig: n32(r) }),
        15 => Reply::ProcStarted(ProcStartedArgs { id: n32(r) }),
        16 => Reply::ProcStdinWritten(ProcStdinWrittenArgs { id: n32(r) }),
        17 => Reply::ProcStdoutContents(ProcStdoutContentsArgs { id: n32(r), output: bytes(r) }),
        18 => Reply::ProcStderrContents(ProcStderrContentsArgs { id: n32(r), output: bytes(r) }),
        19 => Reply::ProcKilled(ProcKilledArgs { id: n32(r), exit_code: opt(r, i32s) }),
        20 => Reply::ProcStatus(ProcStatusArgs { id: n32(r), is_alive: r.gen(), exit_code: opt(r, i32s) }),
        21 => Reply::Error(reply_error(r)),
        22 => Reply::Custom(reply::CustomArgs { data: bytes(r) }),
        23 => Reply::InternalDebug(reply::InternalDebugArgs { output: bytes(r) }),
        _ if depth == 0 => Reply::Heartbeat,
        24 | 27 => Reply::Sequence(reply::SequenceArgs { results: replies(r, depth) }),
        25 => Reply::Batch(reply::BatchArgs { results: replies(r, depth) }),
        _ => {
            let k = r.gen_range(0, REPLIES);
            Reply::Forward(reply::ForwardArgs { address: address(r), reply: Box::new(gen_reply(r, k, depth - 1)) })
        }
    }
}
fn replies(r: &mut StdRng, depth: u32) -> Vec<Reply> {
    vecof(r, |r| {
        let k = r.gen_range(0, REPLIES);
        let d = r.gen_range(0, depth);
        gen_reply(r, k, d)
    })
}
fn gen_header(r: &mut StdRng) -> Header {
    use chrono::TimeZone;
    let secs = match r.gen_range(0, 5) {
        0 => 0,
        1 => -1,
        2 => r.gen_range(-62_000_000_000i64, 250_000_000_000),
        _ => r.gen_range(0, 4_000_000_000i64),
    };
    let nanos = match r.gen_range(0, 4) {
        0 => 0,
        1 => 999_999_999,
        2 => r.gen_range(0, 1000) * 1_000_000,
        _ => r.gen_range(0, 1_000_000_000),
    };
    Header { id: n32(r), creation_date: chrono::Utc.timestamp(secs, nanos) }
}
pub fn gen_content(r: &mut StdRng, i: u64) -> Content {
    let depth = r.gen_range(0, 7);
    let k = (i % (REQUESTS + REPLIES) as u64) as u32;
    if k < REQUESTS {
        Content::Request(gen_request(r, k, depth))
    } else {
        Content::Reply(gen_reply(r, k - REQUESTS, depth))
    }
}
fn kind_of(c: &Content) -> String {
    let s = match c {
        Content::Request(x) => format!("req {:?}", x),
        Content::Reply(Reply::Error(x)) => format!("rep Error {:?}", x),
        Content::Reply(x) => format!("rep {:?}", x),
    };
    s.split('(').next().unwrap_or("").to_string()
}

// ------------------------------------------------------------ C20
pub fn c20(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    let seen: Arc<Mutex<HashMap<Vec<u8>, String>>> = Arc::new(Mutex::new(HashMap::new()));
    par_cases(ctx, ctx.pick(300_000, 6_000_000), Duration::from_secs(ctx.pick(40, 500)), move |i| {
        let mut r = c.rng("msgs", i);
        let content = gen_content(&mut r, i);
        let kind = kind_of(&content);
        let msg = Msg { header: gen_header(&mut r), parent_header: opt(&mut r, gen_header), content };
        let wit = |got: String| json!({"case": i, "message": truncate(&format!("{:?}", msg), 3000), "got": truncate(&got, 3000)});
        let data = match msg.to_vec() {
            Ok(d) => d,
            Err(e) => return c.violation("not-encodable", &format!("{}: {:?}", kind, e), wit(String::new())),
        };
        c.eval();
        match Msg::from_slice(&data) {
            Ok(m) if m == msg => (),
            Ok(m) => return c.violation("wire-roundtrip", &format!("{} came back as something else", kind), wit(format!("{:?}", m))),
            Err(e) => return c.violation("wire-roundtrip", &format!("{} cannot be read back: {:?}", kind, e), wit(String::new())),
        }
        // different messages have different encodings
        if i % 4 == 0 {
            let mut g = seen.lock().unwrap();
            if g.len() < 400_000 {
                let d = format!("{:?}", msg);
                if let Some(o) = g.insert(data.clone(), d.clone()) {
                    if o != d {
                        drop(g);
                        return c.violation("encoding-collision", "two different messages are encoded alike", json!({"a": o, "b": d}));
                    }
                }
            }
        }
        // what is not a whole message is refused, never misread as this one
        if i % 8 == 0 {
            let cut = r.gen_range(0, data.len());
            if let Ok(m) = Msg::from_slice(&data[..cut]) {
                return c.violation("prefix-decodes", &format!("the first {} of {} bytes decode", cut, data.len()), wit(format!("{:?}", m)));
            }
        }
        // altered messages are refused or read as some other message, which
        // then is one that can be written and read itself
        if i % 4 == 1 {
            let mut bad = data.clone();
            for _ in 0..r.gen_range(1, 4) {
                let at = r.gen_range(0, bad.len());
                bad[at] = r.gen();
            }
            if let Ok(m) = Msg::from_slice(&bad) {
                c.count("altered_messages_decoded", 1);
                let again = m.to_vec().ok().and_then(|v| Msg::from_slice(&v).ok());
                if again.as_ref() != Some(&m) {
                    return c.violation("altered-roundtrip", &format!("{:?} comes back as {:?}", m, again), wit(hex(&bad)));
                }
            } else {
                c.count("altered_messages_refused", 1);
            }
        }
        if let Ok(v) = serde_json::to_string(&msg.content) {
            match serde_json::from_str::<Content>(&v) {
                Ok(m) if m == msg.content => c.count("json_roundtrips", 1),
                x => return c.violation("json-roundtrip", &format!("{} via {}", kind, truncate(&v, 500)), wit(format!("{:?}", x))),
            }
        }
        for (f, name) in [(FormatOption::Json, "json"), (FormatOption::Sexpression, "sexpression")].iter() {
            let t = match format_content(*f, msg.content.clone(), |_| Err("fallback".into())) {
                Ok(t) => t,
                Err(e) => return c.violation(&format!("{}-format", name), &format!("{}: {}", kind, e), wit(String::new())),
            };
            if t.contains('\n') {
                return c.violation(&format!("{}-newline", name), &format!("{} is not one line: {}", kind, truncate(&t, 300)), wit(t));
            }
            match convert_text::<Content>(*f, &t) {
                Ok(m) if m == msg.content => c.count(&format!("{}_text_roundtrips", name), 1),
                Ok(m) => return c.violation(&format!("{}-text-roundtrip", name), &format!("{} came back as something else", kind), wit(format!("{:?} from {}", m, t))),
                Err(e) => c.violation(&format!("{}-input-unreadable", name), &format!("{}: {}", kind, e), wit(t)),
            }
        }
        c.count(&kind, 1);
        c.distinct(&data);
        if i % 997 == 0 {
            c.sample(json!({"message": truncate(&format!("{:?}", msg), 200), "bytes": data.len()}));
        }
    });
    ctx.report_panics("messages were encoded and decoded");
    ctx.finish(
        "seeded messages of every request and reply kind with boundary numbers, awkward text, bytes, addresses, dates \
         and nesting up to 7, written and read back on the wire encoding and in both text formats; distinct by \
         encoding",
        20_000,
        &[],
    )
}

// ------------------------------------------------------------ C21
fn same_error(a: &io::Error, b: &io::Error) -> Result<(), String> {
    if a.raw_os_error() != b.raw_os_error() {
        return Err(format!("os code {:?} became {:?}", a.raw_os_error(), b.raw_os_error()));
    }
    let known = KINDS.contains(&a.kind());
    if (known || a.raw_os_error().is_some()) && a.kind() != b.kind() {
        return Err(format!("kind {:?} became {:?}", a.kind(), b.kind()));
    }
    if !known && a.raw_os_error().is_none() && b.kind() != io::ErrorKind::Other {
        return Err(format!("unknown kind {:?} became {:?}", a.kind(), b.kind()));
    }
    if a.to_string() != b.to_string() {
        return Err(format!("text {:?} became {:?}", a.to_string(), b.to_string()));
    }
    Ok(())
}

pub fn c21(ctx: &Ctx) -> i32 {
    let c = ctx.clone();
    // 1. conversions: all kinds, all codes, any text, through every encoding
    par_cases(ctx, ctx.pick(100_000, 2_000_000), Duration::from_secs(ctx.pick(25, 200)), move |i| {
        let mut r = c.rng("errors", i);
        let t = text(&mut r);
        let make = |i: u64| -> io::Error {
            if i % 2 == 0 {
                io::Error::from_raw_os_error(((i / 2) % 260) as i32)
            } else {
                let all: Vec<io::ErrorKind> = KINDS.iter().cloned().chain(vec![io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory]).collect();
                io::Error::new(all[(i / 2) as usize % all.len()], t.clone())
            }
        };
        let e = make(i);
        c.eval();
        let args = IoErrorArgs::from(make(i));
        if args.description != e.to_string() || args.to_string() != e.to_string() {
            c.violation("description", &format!("{:?} is described as {:?}", e, args), json!({"case": i}));
        }
        let msg = Msg::from(Reply::Error(ReplyError::Io(args.clone())));
        let back = msg.to_vec().ok().and_then(|v| Msg::from_slice(&v).ok()).and_then(|m| m.content.into_reply_error());
        let far: io::Error = match back {
            Some(ReplyError::Io(a)) => a.into(),
            x => return c.violation("io-reply", &format!("{:?} arrives as {:?}", e, x), json!({"case": i})),
        };
        if let Err(x) = same_error(&e, &far) {
            c.violation("io-roundtrip", &format!("{:?}: {}", e, x), json!({"case": i}));
        }
        match Reply::from(make(i)) {
            Reply::Error(ReplyError::Io(a)) if a == args => (),
            x => c.violation("io-into-reply", &format!("{:?} becomes {:?}", e, x), json!({"case": i})),
        }
        // with a prefix only the text changes
        let p = IoErrorArgs::from_error_with_prefix(make(i), "ahead: ");
        if p.description != format!("ahead: {}", e) || p.os_code != args.os_code || p.error_kind != args.error_kind {
            c.violation("io-prefix", &format!("{:?} becomes {:?}", e, p), json!({"case": i}));
        }
        // errors of a client can be stored
        let fe = FileAskError::IoError(make(i));
        let v = serde_json::to_string(&fe).map_err(|e| e.to_string()).and_then(|s| {
            serde_json::from_str::<FileAskError>(&s).map_err(|e| format!("{} in {}", e, s))
        });
        match v {
            Ok(FileAskError::IoError(x)) => {
                if let Err(m) = same_error(&e, &x) {
                    c.violation("stored-error", &format!("{:?}: {}", e, m), json!({"case": i}));
                }
            }
            x => c.violation("stored-error", &format!("{:?} is read back as {:?}", e, x), json!({"case": i})),
        }
        let v = serde_cbor::to_vec(&fe).map_err(|e| e.to_string()).and_then(|s| serde_cbor::from_slice::<FileAskError>(&s).map_err(|e| e.to_string()));
        match v {
            Ok(FileAskError::IoError(x)) => {
                if let Err(m) = same_error(&e, &x) {
                    c.violation("stored-error", &format!("{:?}: {}", e, m), json!({"case": i}));
                }
            }
            x => c.violation("stored-error", &format!("{:?} is read back as {:?}", e, x), json!({"case": i})),
        }
        let ask = match i % 4 {
            0 => AskError::Failure { msg: t.clone() },
            1 => AskError::InvalidResponse { reply: gen_reply(&mut r, (i / 4 % REPLIES as u64) as u32, 2) },
            2 => AskError::Timeout,
            _ => [AskError::EncodingFailed, AskError::SendFailed, AskError::CallbackLost][(i / 4) as usize % 3].copy(),
        };
        match serde_json::to_string(&ask).ok().and_then(|s| serde_json::from_str::<AskError>(&s).ok()) {
            Some(x) if x == ask => (),
            x => c.violation("stored-error", &format!("{:?} is read back as {:?}", ask, x), json!({"case": i})),
        }
        c.distinct(&(e.raw_os_error(), format!("{:?}", e.kind()), t));
    });
    // 2. what a client sees of a failing operation is what the operation gives locally
    let c = ctx.clone();
    par_cases(ctx, ctx.pick(200, 6000), Duration::from_secs(ctx.pick(40, 300)), move |i| real_errors(&c, i));
    ctx.report_panics("errors were converted");
    ctx.finish(
        "all OS codes 0-259, all error kinds with arbitrary text, through replies, messages, prefixes and stored \
         client errors; and failing operations of a real server compared with the same operation done locally with \
         std (same tree); distinct by (code, kind, text) and by failing operation",
        20_000,
        &["codes and kinds of the platform the check runs on"],
    )
}

trait Dup {
    fn copy(&self) -> AskError;
}
impl Dup for AskError {
    fn copy(&self) -> AskError {
        match self {
            AskError::Timeout => AskError::Timeout,
            AskError::EncodingFailed => AskError::EncodingFailed,
            AskError::SendFailed => AskError::SendFailed,
            _ => AskError::CallbackLost,
        }
    }
}

fn real_errors(c: &Ctx, i: u64) {
    let mut r = c.rng("real", i);
    let proto = if i % 3 == 0 { Proto::Udp } else { Proto::Tcp };
    let cfg = SrvCfg::noop(proto);
    let (auth, crypt) = (cfg.auth.clone(), cfg.crypt.clone());
    let srv = match cfg.start() {
        Ok(s) => s,
        Err(_) => return c.inconclusive("no server"),
    };
    let mut rt = client_runtime(2);
    let mut cl = match rt.block_on(connect(proto, srv.addr, &auth, &crypt)) {
        Ok(x) => x,
        Err(_) => return c.inconclusive("no client"),
    };
    cl.timeout = Duration::from_secs(40);
    let tmp = tempfile::tempdir().expect("tempdir");
    let root = tmp.path().display().to_string();
    let p = |s: &str| format!("{}/{}", root, s);
    std::fs::create_dir(p("d")).unwrap();
    std::fs::create_dir(p("d/sub")).unwrap();
    std::fs::write(p("d/f"), b"x").unwrap();
    std::fs::write(p("f"), b"y").unwrap();
    std::os::unix::fs::symlink(p("loop"), p("loop")).unwrap();
    std::os::unix::fs::symlink(p("nowhere"), p("dangling")).unwrap();
    std::fs::write(p("noexec"), b"#!/bin/sh\n").unwrap();
    let long = "n".repeat(300);
    let deep = "d/".repeat(3000);
    let paths = ["missing", "missing/x", "f/x", "d", "f", "d/f", "d/sub", "loop", "loop/x", "dangling", "nul\0byte", "", &long, &deep, "noexec"];
    for _ in 0..30 {
        let a = p(paths[r.gen_range(0, paths.len())]);
        let b = p(paths[r.gen_range(0, paths.len())]);
        // only pairs that fail are of interest, and the tree must not change:
        // the local operation runs first, on a copy of the tree
        let twin = tempfile::tempdir().expect("tempdir");
        let ok = std::process::Command::new("cp").arg("-a").arg(format!("{}/.", root)).arg(twin.path()).status().map(|s| s.success()).unwrap_or(false);
        if !ok {
            c.inconclusive("no copy of the tree");
            continue;
        }
        let t = |s: &str| s.replacen(&root, &twin.path().display().to_string(), 1);
        // the looping link of the copy has to loop as well
        let _ = std::fs::remove_file(twin.path().join("loop"));
        std::os::unix::fs::symlink(twin.path().join("loop"), twin.path().join("loop")).unwrap();
        let _ = std::fs::remove_file(twin.path().join("dangling"));
        std::os::unix::fs::symlink(twin.path().join("nowhere"), twin.path().join("dangling")).unwrap();
        let what = r.gen_range(0, 10);
        let local: io::Result<()> = match what {
            0 => std::fs::OpenOptions::new().read(true).open(t(&a)).map(|_| ()),
            1 => std::fs::OpenOptions::new().read(true).write(true).open(t(&a)).map(|_| ()),
            2 => std::fs::OpenOptions::new().read(true).write(true).create(true).open(t(&a)).map(|_| ()),
            3 => std::fs::create_dir(t(&a)),
            4 => std::fs::create_dir_all(t(&a)),
            5 => std::fs::remove_dir(t(&a)),
            6 => std::fs::read_dir(t(&a)).map(|_| ()),
            7 => std::process::Command::new(t(&a)).status().map(|_| ()),
            8 => std::process::Command::new("true").current_dir(t(&a)).status().map(|_| ()),
            _ => std::process::Command::new("true\0").arg(&b).status().map(|_| ()),
        };
        let local = match local {
            Err(e) => e,
            Ok(_) => {
                c.count("local_success_skipped", 1);
                continue;
            }
        };
        // a process's directory is resolved before it is entered
        let local2 = if what == 8 { std::fs::canonicalize(t(&a)).err() } else { None };
        let name = ["open-read", "open-write", "open-create", "mkdir", "mkdir-p", "rmdir", "list", "exec", "exec-in", "exec-nul"][what];
        let far: Result<(), Result<io::Error, String>> = rt.block_on(async {
            let fx = |e: FileAskError| match e {
                FileAskError::IoError(e) => Ok(e),
                e => Err(format!("{:?}", e)),
            };
            let px = |e: ExecAskError| match e {
                ExecAskError::IoError(e) => Ok(e),
                e => Err(format!("{:?}", e)),
            };
            match what {
                0 => cl.ask_open_file_with_options(a.clone(), false, false, true).await.map(|_| ()).map_err(fx),
                1 => cl.ask_open_file_with_options(a.clone(), false, true, true).await.map(|_| ()).map_err(fx),
                2 => cl.ask_open_file_with_options(a.clone(), true, true, true).await.map(|_| ()).map_err(fx),
                3 => cl.ask_create_dir(a.clone(), false).await.map(|_| ()).map_err(fx),
                4 => cl.ask_create_dir(a.clone(), true).await.map(|_| ()).map_err(fx),
                5 => cl.ask_remove_dir(a.clone(), false).await.map(|_| ()).map_err(fx),
                6 => cl.ask_list_dir_contents(a.clone()).await.map(|_| ()).map_err(fx),
                7 => cl.ask_exec_proc(a.clone(), vec![]).await.map(|_| ()).map_err(px),
                8 => cl.ask_exec_proc_with_current_dir("true".into(), vec![], a.clone()).await.map(|_| ()).map_err(px),
                _ => cl.ask_exec_proc("true\0".into(), vec![b.clone()]).await.map(|_| ()).map_err(px),
            }
        });
        c.eval();
        let shown = truncate(&format!("{} {:?}", name, a.trim_start_matches(&root)), 120);
        match far {
            Err(Ok(e)) => {
                let like = |l: &io::Error| e.raw_os_error() == l.raw_os_error() && e.kind() == l.kind();
                if !like(&local) && !local2.as_ref().map(like).unwrap_or(false) {
                    c.violation(
                        "client-sees-other-error",
                        &format!("{}: locally {:?}, the client is told {:?}", shown, local, e),
                        json!({"case": i, "operation": shown}),
                    );
                    break;
                }
                c.distinct(&(what, a.trim_start_matches(&root).to_string()));
                c.count(&format!("failed {}", name), 1);
            }
            Err(Err(e)) if proto == Proto::Udp && e.contains("Timeout") => c.inconclusive("no reply over UDP"),
            x => {
                c.violation("client-error-kind", &format!("{}: locally {:?}, the client gets {:?}", shown, local, x), json!({"case": i}));
                break;
            }
        }
    }
    // ids nobody was given
    let id = n32(&mut r);
    let x = rt.block_on(cl.ask_read_proc_status(&RemoteProc::shallow(id)));
    match x {
        Err(ExecAskError::IoError(e)) if e.kind() == io::ErrorKind::InvalidInput && e.to_string().contains(&id.to_string()) => c.count("unknown_ids", 1),
        Err(ExecAskError::GeneralAskFailed(AskError::Timeout)) if proto == Proto::Udp => c.inconclusive("no reply over UDP"),
        x => c.violation("unknown-id", &format!("{:?}", x), json!({"case": i})),
    }
    drop(cl);
    rt.shutdown_timeout(Duration::from_millis(300));
    srv.stop();
}
