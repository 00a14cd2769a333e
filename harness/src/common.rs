//! Shared machinery of every monitor: seeds, three-valued verdicts, evidence,
//! known findings, panic capture, live-heap accounting, stall metering.

use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Counting allocator: lets a monitor observe retained memory of the code
/// under test without looking inside it.
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
pub fn live_bytes() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

/// Panics raised inside the code under test (source path below /repo/src).
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn install_panic_hook() {
    let verbose = std::env::var("MON_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if verbose {
            eprintln!("panic at {}: {}", loc, msg);
        }
        if !loc.contains("/verif/") && !loc.starts_with("src/") {
            let mut g = PANICS.lock().unwrap();
            if g.len() < 1000 {
                g.push(format!("{} ({})", loc, msg));
            }
        } else {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Inner {
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, u64>,
    inconclusive: BTreeMap<String, u64>,
    max_inconclusive: u64,
}

#[derive(Clone)]
pub struct Ctx(Arc<CtxI>);
pub struct CtxI {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    evals: AtomicU64,
    inner: Mutex<Inner>,
    pub stop: AtomicBool,
    known_list: Vec<(String, String)>,
    pub only_case: Option<u64>,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

impl Ctx {
    pub fn new(prop: &str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1);
        let thorough =
            std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
        // known-findings.jsonl: {"property","signature","what","status"}
        let known_list = std::fs::read_to_string(verif_dir().join("known-findings.jsonl"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|v| v["status"] == "open" && v["property"] == prop)
            .filter_map(|v| {
                Some((
                    v["signature"].as_str()?.to_string(),
                    v["what"].as_str().unwrap_or("").to_string(),
                ))
            })
            .collect();
        Ctx(Arc::new(CtxI {
            prop: prop.to_string(),
            seed,
            thorough,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            inner: Mutex::new(Inner {
                distinct: HashSet::new(),
                samples: vec![],
                counters: BTreeMap::new(),
                violations: vec![],
                known: BTreeMap::new(),
                inconclusive: BTreeMap::new(),
                max_inconclusive: 0,
            }),
            stop: AtomicBool::new(false),
            known_list,
            only_case: std::env::var("MON_CASE").ok().and_then(|x| x.parse().ok()),
        }))
    }
    pub fn thorough(&self) -> bool {
        self.0.thorough
    }
    pub fn seed(&self) -> u64 {
        self.0.seed
    }
    pub fn prop(&self) -> &str {
        &self.0.prop
    }
    pub fn elapsed(&self) -> Duration {
        self.0.start.elapsed()
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.0.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Deterministic RNG of one case of this run.
    pub fn rng(&self, stream: &str, case: u64) -> StdRng {
        StdRng::seed_from_u64(h64(&(self.0.seed, &self.0.prop, stream, case)))
    }
    pub fn eval(&self) {
        self.0.evals.fetch_add(1, Ordering::Relaxed);
    }
    pub fn evals(&self) -> u64 {
        self.0.evals.load(Ordering::Relaxed)
    }
    /// Records a distinct, non-trivial case by its signature.
    pub fn distinct<T: Hash>(&self, t: &T) {
        let h = h64(t);
        let mut g = self.0.inner.lock().unwrap();
        if g.distinct.len() < 5_000_000 {
            g.distinct.insert(h);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut g = self.0.inner.lock().unwrap();
        if g.samples.len() < 6 {
            g.samples.push(v);
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.0.inner.lock().unwrap().counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// Keeps the largest value seen.
    pub fn max(&self, k: &str, n: u64) {
        let mut g = self.0.inner.lock().unwrap();
        let e = g.counters.entry(k.to_string()).or_insert(0);
        *e = n.max(*e);
    }
    pub fn counter(&self, k: &str) -> u64 {
        *self.0.inner.lock().unwrap().counters.get(k).unwrap_or(&0)
    }
    /// Changes whenever anything at all is recorded.
    pub fn progress(&self) -> u64 {
        let g = self.0.inner.lock().unwrap();
        self.evals() + g.counters.values().sum::<u64>() + g.distinct.len() as u64 + g.max_inconclusive
    }
    pub fn inconclusive(&self, why: &str) {
        let mut g = self.0.inner.lock().unwrap();
        *g.inconclusive.entry(why.to_string()).or_insert(0) += 1;
        g.max_inconclusive += 1;
    }
    pub fn violated(&self) -> bool {
        !self.0.inner.lock().unwrap().violations.is_empty()
    }
    pub fn done(&self) -> bool {
        self.0.stop.load(Ordering::Relaxed)
    }
    /// Reports a violation. `sig` identifies the failing input / call site /
    /// history shape and is what the known-findings file matches on.
    pub fn violation(&self, sig: &str, msg: &str, witness: Value) {
        let mut g = self.0.inner.lock().unwrap();
        if self.0.known_list.iter().any(|(s, _)| s == sig) {
            *g.known.entry(sig.to_string()).or_insert(0) += 1;
            return;
        }
        let n = g.violations.len();
        if n < 5 {
            let dir = verif_dir().join("evidence").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.json", self.0.prop, self.0.seed, n));
            let doc = json!({
                "property": self.0.prop, "seed": self.0.seed,
                "tier": if self.0.thorough {"thorough"} else {"quick"},
                "signature": sig, "message": msg, "witness": witness,
                "replay": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/run.sh {}",
                    self.0.seed, if self.0.thorough {"thorough"} else {"quick"}, self.0.prop),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            println!("VIOLATION property={} replay={}", self.0.prop, path.display());
            println!("  [{}] {}", sig, truncate(msg, 1500));
        }
        g.violations.push((sig.to_string(), msg.to_string()));
        if g.violations.len() >= 5 {
            self.0.stop.store(true, Ordering::Relaxed);
        }
    }
    /// Every panic whose site is inside the code under test is a violation of
    /// the property that was being exercised.
    pub fn report_panics(&self, when: &str) {
        let mut seen = HashSet::new();
        for p in take_panics() {
            if seen.insert(p.clone()) {
                self.violation(
                    &format!("panic@{}", strip_line(&p)),
                    &format!("code under test panicked while {}: {}", when, p),
                    json!({ "panic": p }),
                );
            }
        }
    }
    /// Writes evidence and returns the exit code.
    pub fn finish(&self, rule: &str, min_evals: u64, assumptions: &[&str]) -> i32 {
        let g = self.0.inner.lock().unwrap();
        let mut cov = json!({
            "evaluations": self.evals(),
            "distinct_nontrivial": g.distinct.len(),
            "rule": rule,
            "samples": g.samples,
            "inconclusive": g.inconclusive,
            "known_findings_seen": g.known,
        });
        for (k, v) in &g.counters {
            cov[k] = json!(v);
        }
        for (k, n) in &[("servers_on_one_thread", &crate::rig::ON_ONE_THREAD), ("programs_on_one_thread", &crate::rig::RUNS_ON_ONE_THREAD)] {
            let n = n.load(Ordering::Relaxed);
            if n > 0 {
                cov[k] = json!(n);
                println!("  {} = {}", k, n);
            }
        }
        let doc = json!({
            "property": self.0.prop,
            "tier": if self.0.thorough {"thorough"} else {"quick"},
            "seed": self.0.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.0.start.elapsed().as_secs_f64(),
            "violations": g.violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.0.prop)),
            serde_json::to_string_pretty(&doc).unwrap(),
        )
        .expect("evidence");
        for (sig, what) in &self.0.known_list {
            println!(
                "KNOWN-FINDING: property={} {} [{}; seen {} times in this run]",
                self.0.prop, what, sig, g.known.get(sig).unwrap_or(&0)
            );
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {} inconclusive, {:.1}s",
            self.0.prop, self.evals(), g.distinct.len(), g.violations.len(),
            g.max_inconclusive, self.0.start.elapsed().as_secs_f64()
        );
        for (k, v) in &g.counters {
            println!("  {} = {}", k, v);
        }
        for (k, v) in &g.inconclusive {
            println!("  inconclusive: {} x{}", k, v);
        }
        if !g.violations.is_empty() {
            return 1;
        }
        if self.evals() < min_evals {
            println!("observed too little: {} < {} evaluations", self.evals(), min_evals);
            return 3;
        }
        0
    }
}

/// `path:line (msg)` without the line number, so that it survives edits.
pub fn strip_line(s: &str) -> String {
    let head = s.split(" (").next().unwrap_or(s);
    let file = head.rsplitn(2, ':').last().unwrap_or(head);
    file.trim_start_matches("/repo/").to_string()
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 96 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}

thread_local! {
    static CASE: std::cell::Cell<Option<u64>> = std::cell::Cell::new(None);
}
/// The case this thread is running, if it is one of the workers below.
pub fn current_case() -> Option<u64> {
    CASE.with(|c| c.get())
}

/// Runs `n` cases over all cores; stops early once the run is decided or the
/// time budget is used.
pub fn par_cases<F>(ctx: &Ctx, n: u64, budget: Duration, f: F)
where
    F: Fn(u64) + Send + Sync + 'static,
{
    par_cases_on(ctx, num_threads(), n, budget, f)
}
/// The same for cases that mostly wait.
pub fn par_cases_on<F>(ctx: &Ctx, threads: usize, n: u64, budget: Duration, f: F)
where
    F: Fn(u64) + Send + Sync + 'static,
{
    let next = Arc::new(AtomicU64::new(0));
    let f = Arc::new(f);
    let t0 = Instant::now();
    let mut hs = vec![];
    let only = ctx.0.only_case;
    for _ in 0..threads {
        let next = next.clone();
        let f = f.clone();
        let ctx = ctx.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || ctx.done() || t0.elapsed() > budget {
                        break;
                    }
                    if let Some(o) = only {
                        if o != i {
                            continue;
                        }
                    }
                    CASE.with(|c| c.set(Some(i)));
                    f(i);
                })
                .unwrap(),
        );
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("a harness worker panicked");
            std::process::exit(4);
        }
    }
}

pub fn num_threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// Measures how badly this machine is stalling: a wall-clock deadline that
/// expires is believed only if the machine itself was responsive.
pub struct Stall {
    /// (when it was noticed, how many ms too long a nap took)
    naps: Arc<Mutex<Vec<(Instant, u64)>>>,
    /// when each thread (they run one case at a time) last asked to start over
    marks: Mutex<std::collections::HashMap<std::thread::ThreadId, Instant>>,
    stop: Arc<AtomicBool>,
}
impl Stall {
    pub fn start() -> Self {
        let s = Stall { naps: Default::default(), marks: Default::default(), stop: Arc::new(AtomicBool::new(false)) };
        let (naps, stop) = (s.naps.clone(), s.stop.clone());
        std::thread::spawn(move || {
            while !stop.load(Ordering::Relaxed) {
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                let over = t.elapsed().as_millis() as u64 - 20;
                if over > 20 {
                    naps.lock().unwrap().push((Instant::now(), over));
                }
            }
        });
        s
    }
    pub fn reset(&self) {
        self.marks.lock().unwrap().insert(std::thread::current().id(), Instant::now());
    }
    pub fn worst_ms(&self) -> u64 {
        let mark = self.marks.lock().unwrap().get(&std::thread::current().id()).cloned();
        self.naps.lock().unwrap().iter().filter(|n| mark.map(|m| n.0 >= m).unwrap_or(true)).map(|n| n.1).max().unwrap_or(0)
    }
}
impl Drop for Stall {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
    }
}

pub fn rand_bytes(r: &mut StdRng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    r.fill(&mut v[..]);
    v
}

/// Payload of `n` bytes with one of several shapes.
pub fn payload(r: &mut StdRng, n: usize) -> Vec<u8> {
    match r.gen_range(0, 6) {
        0 => vec![0u8; n],
        1 => vec![0xff; n],
        2 => {
            let p = rand_bytes(r, 3);
            (0..n).map(|i| p[i % 3]).collect()
        }
        3 => (0..n).map(|i| b"{\"a\": [1, null], \"msg\": \"over\"}"[i % 31]).collect(),
        _ => rand_bytes(r, n),
    }
}

/// Ends the process with `code` if nothing at all was observed for a long time
/// while the machine was responsive.
pub fn watch_progress(ctx: &Ctx, code: i32) {
    let ctx = ctx.clone();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            let t = Instant::now();
            std::thread::sleep(Duration::from_millis(500));
            if t.elapsed() > Duration::from_secs(3) {
                since = Instant::now(); // the machine stalls; start over
            }
            let now = ctx.progress();
            if now != last {
                last = now;
                since = Instant::now();
            }
            if since.elapsed() > Duration::from_secs(140) {
                eprintln!("no progress");
                std::process::exit(code);
            }
        }
    });
}

/// The result of a future that does not have to wait.
pub fn now_or_never<F: std::future::Future>(f: F) -> Option<F::Output> {
    use futures::FutureExt;
    f.now_or_never()
}
