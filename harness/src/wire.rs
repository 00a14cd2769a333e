//! Monitors of the packet layer (C01 – C07), driven through the public wires.
use crate::common::*;
use crate::kinds::*;
use crate::mirror::*;
use over_there::core::transport::auth::Digest;
use over_there::core::transport::crypto::{
    nonce::cache::NonceCacheBicrypter, AssociatedData, CryptError, Decrypter,
    Encrypter, Nonce,
};
use over_there::core::transport::{InboundWireError, OutboundWireError, Wire};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

pub type In = Box<dyn FnMut(&[u8]) -> Result<Option<Vec<u8>>, InboundWireError> + Send>;
pub type Out = Box<dyn FnMut(&[u8]) -> Result<Vec<Vec<u8>>, OutboundWireError> + Send>;

pub const STD_SIZES: [usize; 4] = [1500, 508, 1212, 576];

/// One endpoint of a wire: (inbound, outbound), split the way `arc` says.
pub fn ends(size: usize, ttl: Duration, a: DynAuth, b: DynCrypt, arc: bool) -> (In, Out) {
    let w = Wire::new(size, ttl, a, b);
    if arc {
        let (mut i, mut o) = w.arc_split();
        (Box::new(move |d| i.process(d)), Box::new(move |d| o.process(d)))
    } else {
        let (mut i, mut o) = w.clone_split();
        (Box::new(move |d| i.process(d)), Box::new(move |d| o.process(d)))
    }
}

/// An endpoint whose parts are closures: the authenticator's, and a keystream
/// xored over the data.
fn closure_ends(s: &Setup) -> (In, Out) {
    use over_there::core::transport::auth::{ClosureSigner, ClosureVerifier, Signer, Verifier};
    use over_there::core::transport::crypto::{ClosureDecrypter, ClosureEncrypter};
    use over_there::core::transport::{InboundWire, OutboundWire};
    let (a, b) = (Arc::new(s.auth()), Arc::new(s.auth()));
    let (k, l) = (s.ckey, s.ckey);
    fn xor(d: &[u8], k: &[u8; 64]) -> Vec<u8> {
        d.iter().enumerate().map(|(i, x)| x ^ k[i % 64] ^ (i / 64) as u8).collect()
    }
    let signer = ClosureSigner::new(move |m: &[u8]| a.sign(m));
    let verifier = ClosureVerifier::new(move |m: &[u8], d: &Digest| b.verify(m, d));
    let enc = ClosureEncrypter::new(move |d: &[u8], _: &AssociatedData| Ok(xor(d, &k)));
    let dec = ClosureDecrypter::new(move |d: &[u8], _: &AssociatedData| Ok(xor(d, &l)));
    let mut i = InboundWire::new(s.size, LONG, verifier, dec).clone();
    let mut o = OutboundWire::new(s.size, signer, enc).clone();
    (Box::new(move |d| i.process(d)), Box::new(move |d| o.process(d)))
}

pub struct Setup {
    pub ak: AuthKind,
    pub ck: CryptKind,
    pub cache: bool,
    pub arc: bool,
    pub size: usize,
    pub akey: Vec<u8>,
    pub ckey: [u8; 64],
}
impl Setup {
    pub fn random(r: &mut StdRng) -> Setup {
        Setup {
            ak: *AUTHS.choose(r).unwrap(),
            ck: *CRYPTS.choose(r).unwrap(),
            cache: r.gen_bool(0.3),
            arc: r.gen(),
            size: if r.gen_bool(0.6) {
                *STD_SIZES.choose(r).unwrap()
            } else {
                r.gen_range(508, 4000)
            },
            akey: rand_auth_key(r),
            ckey: rand_key(r),
        }
    }
    pub fn auth(&self) -> DynAuth {
        make_auth(self.ak, &self.akey)
    }
    pub fn crypt(&self) -> DynCrypt {
        let c = make_crypt(self.ck, &self.ckey);
        if self.cache {
            with_cache(c, 1000)
        } else {
            c
        }
    }
    pub fn end(&self, ttl: Duration) -> (In, Out) {
        ends(self.size, ttl, self.auth(), self.crypt(), self.arc)
    }
    pub fn desc(&self) -> String {
        format!(
            "{:?}/{:?}{}{} size={}",
            self.ak,
            self.ck,
            if self.cache { "+cache" } else { "" },
            if self.arc { " arc" } else { " clone" },
            self.size
        )
    }
}

pub const LONG: Duration = Duration::from_secs(3600);

fn pick_len(r: &mut StdRng, chunk: usize, max: usize) -> usize {
    let n = match r.gen_range(0, 10) {
        0 => r.gen_range(1, 20),
        1..=4 => {
            // around multiples of what a packet carries
            let k = r.gen_range(1, 8) * chunk;
            (k as i64 + r.gen_range(-40, 41)).max(1) as usize
        }
        5..=7 => r.gen_range(1, 3000),
        8 => r.gen_range(1, 12_000),
        _ => r.gen_range(1, max),
    };
    n.min(max)
}

/// Largest data section seen in a packet of this configuration.
fn chunk_of(out: &mut Out) -> usize {
    out(&vec![7u8; 20_000])
        .ok()
        .and_then(|v| v.get(0).and_then(|p| Pkt::parse(p)).map(|p| p.data.len()))
        .unwrap_or(250)
        .max(1)
}

fn guard<T>(ctx: &Ctx, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(_) => {
            ctx.report_panics(what);
            None
        }
    }
}

// ---------------------------------------------------------------- C01
pub fn c01(ctx: &Ctx) -> i32 {
    let n = ctx.pick(12_000, 300_000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(60, 600)), move |i| {
        let mut r = c.rng("roundtrip", i);
        let mut s = Setup::random(&mut r);
        // packet counts beyond what fits one or two bytes
        if i == 0 {
            s.ak = AuthKind::Noop;
            s.ck = CryptKind::Noop;
            s.size = 160;
            let n = r.gen_range(65_600, 66_500) * chunk_of(&mut s.end(LONG).1);
            c.count("messages_beyond_65536_packets", 1);
            return c01_msgs(&c, i, &s, &mut r, &[n]);
        }
        if i % 50 == 1 {
            s.size = *[508usize, 508, 576, 1500].choose(&mut r).unwrap();
            let chunk = chunk_of(&mut s.end(LONG).1);
            let n = r.gen_range(257, 1200) * chunk;
            c.count("messages_beyond_256_packets", 1);
            return c01_msgs(&c, i, &s, &mut r, &[n, chunk * 2]);
        }
        if i % 100 == 2 {
            // many unfinished messages at once
            let chunk = chunk_of(&mut s.end(LONG).1);
            let lens: Vec<usize> = (0..r.gen_range(20, 700)).map(|_| chunk * r.gen_range(1, 3) + 1).collect();
            c.count("streams_of_many_messages", 1);
            return c01_msgs(&c, i, &s, &mut r, &lens);
        }
        c01_case(&c, i, &s, &mut r);
    });
    c01_session(ctx);
    ctx.finish(
        "random authenticator x cipher x nonce cache x split mode x transmission size; 1-4 messages with \
         lengths around packet boundaries up to 64 KiB; all packets delivered once in in-order, reversed, \
         shuffled or interleaved order; non-trivial = at least one message spans several packets; distinct by \
         (configuration, packet counts, arrival order)",
        200,
        &["payloads up to 64 KiB", "transmission sizes 508..4000 bytes"],
    )
}

/// One pair of ends in use for long: more messages than fit any small counter.
fn c01_session(ctx: &Ctx) {
    let hs: Vec<_> = (0..ctx.pick(4, 16))
        .map(|k| {
            let c = ctx.clone();
            std::thread::spawn(move || {
                let mut r = c.rng("session", k);
                let mut s = Setup::random(&mut r);
                if k == 0 {
                    s.ak = AuthKind::Noop;
                    s.ck = CryptKind::Noop;
                }
                let (mut inb, _) = s.end(LONG);
                let (_, mut out) = s.end(LONG);
                let n = if k == 0 { c.pick(70_000u64, 140_000) } else { c.pick(8_000, 70_000) };
                for m in 0..n {
                    let mut msg = m.to_be_bytes().to_vec();
                    let pad = if m % 97 == 0 { r.gen_range(0, 2000) } else { r.gen_range(0, 40) };
                    msg.extend(rand_bytes(&mut r, pad));
                    let packets = match out(&msg) {
                        Ok(v) => v,
                        Err(e) => return c.violation("encode-refused", &format!("{}: sending message {} of a session failed: {}", s.desc(), m, e), json!({"session": k})),
                    };
                    let mut got = vec![];
                    for x in &packets {
                        match inb(x) {
                            Ok(Some(d)) => got.push(d),
                            Ok(None) => {}
                            Err(e) => return c.violation("genuine-packet-rejected", &format!("{}: message {} of a session was rejected: {}", s.desc(), m, e), json!({"session": k})),
                        }
                    }
                    if got.len() != 1 || got[0] != msg {
                        return c.violation("session-delivery", &format!("{}: message {} of a session gave {} deliveries", s.desc(), m, got.len()), json!({"session": k}));
                    }
                }
                c.eval();
                c.max("messages_of_one_session", n);
                c.distinct(&("session", s.desc(), n));
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            ctx.violation("panic", "a wire panicked in a long session", json!({}));
        }
    }
}

fn c01_case(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng) {
    let chunk = chunk_of(&mut s.end(LONG).1);
    let nmsg = r.gen_range(1, 5);
    let lens: Vec<usize> = (0..nmsg).map(|_| pick_len(r, chunk, 65_000)).collect();
    c01_msgs(c, i, s, r, &lens)
}

fn c01_msgs(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng, lens: &[usize]) {
    let ((mut inb, _), (_, mut out)) = if i % 16 == 7 {
        c.count("ends_made_of_closures", 1);
        (closure_ends(s), closure_ends(s))
    } else {
        (s.end(LONG), s.end(LONG))
    };
    let big = |n: usize| n > 100_000;
    let msgs: Vec<Vec<u8>> = lens.iter().map(|n| if big(*n) { rand_bytes(r, *n) } else { payload(r, *n) }).collect();
    let mut stream: Vec<(usize, Vec<u8>)> = vec![];
    let mut counts = vec![];
    for (m, p) in msgs.iter().enumerate() {
        let res = match guard(c, "encoding", || out(p)) {
            Some(x) => x,
            None => return,
        };
        match res {
            Err(e) => {
                c.violation(
                    "encode-refused",
                    &format!("{}: sending {} bytes failed: {}", s.desc(), p.len(), e),
                    json!({"case": i}),
                );
                return;
            }
            Ok(v) => {
                counts.push(v.len());
                for p in v {
                    stream.push((m, p));
                }
            }
        }
    }
    let order = r.gen_range(0, 4);
    c.max("packets_of_one_message", *counts.iter().max().unwrap() as u64);
    match order {
        0 => {}
        1 => stream.reverse(),
        2 => stream.shuffle(r),
        _ => {
            // per-message order kept, messages interleaved at random
            let mut qs: Vec<std::collections::VecDeque<_>> =
                (0..msgs.len()).map(|_| Default::default()).collect();
            for x in stream.drain(..) {
                qs[x.0].push_back(x);
            }
            while qs.iter().any(|q| !q.is_empty()) {
                let k = r.gen_range(0, qs.len());
                if let Some(x) = qs[k].pop_front() {
                    stream.push(x);
                }
            }
        }
    }
    let mut left = counts.clone();
    let mut got = vec![0usize; msgs.len()];
    for (pos, (m, bytes)) in stream.iter().enumerate() {
        left[*m] -= 1;
        let res = match guard(c, "receiving packets", || inb(bytes)) {
            Some(x) => x,
            None => return,
        };
        let wit = || json!({"case": i, "config": s.desc(), "lens": msgs.iter().map(|m| m.len()).collect::<Vec<_>>(),
                            "packets": counts, "order": order, "position": pos, "message": m});
        match res {
            Err(e) => {
                c.violation(
                    "genuine-packet-rejected",
                    &format!("{}: packet {} of the stream (message {}, {} packets, order {}) was rejected: {}",
                        s.desc(), pos, m, counts[*m], order, e),
                    wit(),
                );
                return;
            }
            Ok(Some(data)) => {
                if data != msgs[*m] {
                    c.violation("delivered-differs",
                        &format!("{}: message {} of {} bytes was delivered as {} different bytes", s.desc(), m, msgs[*m].len(), data.len()), wit());
                    return;
                }
                if left[*m] != 0 {
                    c.violation("delivered-early", &format!("{}: message {} delivered with {} packets outstanding", s.desc(), m, left[*m]), wit());
                    return;
                }
                got[*m] += 1;
            }
            Ok(None) => {
                if left[*m] == 0 {
                    c.violation("not-delivered",
                        &format!("{}: message {} ({} bytes, {} packets, order {}) not delivered on its last packet", s.desc(), m, msgs[*m].len(), counts[*m], order), wit());
                    return;
                }
            }
        }
    }
    if got.iter().any(|g| *g != 1) {
        c.violation("delivery-count", &format!("{}: deliveries per message {:?}", s.desc(), got), json!({"case": i}));
    }
    c.eval();
    c.count("messages", msgs.len() as u64);
    c.count("packets", stream.len() as u64);
    if counts.iter().any(|n| *n > 1) {
        c.distinct(&(s.desc(), &counts, stream.iter().map(|x| x.0).collect::<Vec<_>>(), order));
    }
    if i < 3 {
        c.sample(json!({"config": s.desc(), "lens": msgs.iter().map(|m| m.len()).collect::<Vec<_>>(), "packets": counts, "order": order}));
    }
}

// ---------------------------------------------------------------- C02
/// Loss, duplication, reordering and interleaving; and crafted packet sets.
pub fn c02(ctx: &Ctx) -> i32 {
    let n = ctx.pick(4000, 100_000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(60, 600)), move |i| {
        let mut r = c.rng("faults", i);
        let mut s = Setup::random(&mut r);
        s.cache = false; // replays of whole messages are C05's subject
        if i % 4 == 3 {
            c02_crafted(&c, i, &s, &mut r);
        } else {
            c02_case(&c, i, &s, &mut r);
        }
    });
    c02_remains(ctx);
    ctx.finish(
        "2-6 messages whose packets are lost, duplicated, reordered and interleaved by a seeded adversary \
         (3/4 of the cases), or packet sets with index gaps, several finals and contradictory indexes, correctly \
         signed (1/4); the oracle is a set-of-received-indexes model of each message; distinct by fault script",
        200,
        &["group identifiers are 32-bit random numbers: that they tell messages apart is judged statistically, \
           with thousands of unfinished messages at a time (clean false alarm below 1e-7)"],
    )
}

/// Thousands of messages of which only a part arrives: however many they
/// are, their remains never add up to something.
fn c02_remains(ctx: &Ctx) {
    let n = ctx.pick(4, 40);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(20, 200)), move |i| {
        let mut r = c.rng("remains", i);
        let s = Setup { size: 508, ck: CryptKind::Noop, cache: false, ..Setup::random(&mut r) };
        let mut failures = vec![];
        for attempt in 0..3 {
            let (mut inb, _) = s.end(LONG);
            let (_, mut out) = s.end(LONG);
            let chunk = chunk_of(&mut out);
            let mut bad = 0;
            let mut packets = 0;
            for k in 0..6000u32 {
                let m: Vec<u8> = k.to_be_bytes().iter().cycle().take(chunk + 4).cloned().collect();
                let p = match out(&m) { Ok(p) => p, Err(_) => return };
                if p.len() < 2 {
                    return;
                }
                let part = if k % 2 == 0 { &p[..1] } else { &p[1..] };
                for x in part {
                    packets += 1;
                    match inb(x) {
                        Ok(None) => (),
                        _ => bad += 1,
                    }
                }
            }
            c.count("packets_of_unfinished_messages", packets);
            if bad == 0 {
                break;
            }
            failures.push(bad);
            if attempt == 2 {
                c.violation(
                    "remains-mixed",
                    &format!("{}: of 6000 messages only a part arrived each, yet {:?} packets (in three attempts) were taken for parts of others", s.desc(), failures),
                    json!({"case": i, "config": s.desc()}),
                );
            }
        }
        c.eval();
        c.distinct(&("remains", s.desc()));
    });
}

fn c02_case(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng) {
    let (mut inb, _) = s.end(LONG);
    let (_, mut out) = s.end(LONG);
    let chunk = chunk_of(&mut out);
    let nmsg = r.gen_range(2, 7);
    let mut msgs = vec![];
    let mut script: Vec<(usize, usize)> = vec![];
    let mut pk: Vec<Vec<Vec<u8>>> = vec![];
    let loss = *[0.0, 0.02, 0.2, 0.5].choose(r).unwrap();
    let dup = *[0.0, 0.1, 0.6].choose(r).unwrap();
    for m in 0..nmsg {
        let n = pick_len(r, chunk, 9000);
        let p = payload(r, n);
        let v = match guard(c, "encoding", || out(&p)) {
            Some(Ok(v)) => v,
            _ => return,
        };
        for j in 0..v.len() {
            if !r.gen_bool(loss) {
                script.push((m, j));
            }
            while r.gen_bool(dup) {
                script.push((m, j));
            }
        }
        pk.push(v);
        msgs.push(p);
    }
    let mode = r.gen_range(0, 3);
    if mode > 0 {
        script.shuffle(r);
    }
    let mut seen: Vec<HashSet<usize>> = vec![HashSet::new(); nmsg];
    let mut mult: HashMap<(usize, usize), usize> = HashMap::new();
    let mut delivered = vec![0usize; nmsg];
    for (pos, (m, j)) in script.iter().enumerate() {
        seen[*m].insert(*j);
        *mult.entry((*m, *j)).or_insert(0) += 1;
        let res = match guard(c, "receiving packets", || inb(&pk[*m][*j])) {
            Some(x) => x,
            None => return,
        };
        let wit = || json!({"case": i, "config": s.desc(), "script": script, "packets": pk.iter().map(|p| p.len()).collect::<Vec<_>>(), "position": pos});
        let complete = seen[*m].len() == pk[*m].len();
        if let Ok(Some(data)) = &res {
            delivered[*m] += 1;
            if *data != msgs[*m] {
                let other = msgs.iter().position(|x| x == data);
                c.violation("corrupt-delivery", &format!("{}: on packet {} of message {} something else was delivered ({} bytes, equal to message {:?})", s.desc(), j, m, data.len(), other), wit());
                return;
            }
            if !complete {
                c.violation("partial-delivery", &format!("{}: message {} delivered although only {} of {} packets arrived", s.desc(), m, seen[*m].len(), pk[*m].len()), wit());
                return;
            }
            let bound = (0..pk[*m].len()).map(|j| *mult.get(&(*m, j)).unwrap_or(&0)).min().unwrap();
            if delivered[*m] > bound {
                c.violation("delivered-too-often", &format!("{}: message {} delivered {} times, its rarest packet arrived {} times", s.desc(), m, delivered[*m], bound), wit());
                return;
            }
        } else if complete && delivered[*m] == 0 {
            c.violation("complete-not-delivered", &format!("{}: every packet of message {} ({}) arrived, yet it was not delivered: {}", s.desc(), m, pk[*m].len(),
                match &res { Err(e) => format!("error {}", e), _ => "nothing returned".into() }), wit());
            return;
        }
    }
    c.eval();
    c.count("packets", script.len() as u64);
    c.count("messages_delivered", delivered.iter().map(|d| *d as u64).sum());
    c.count("messages_lost", delivered.iter().filter(|d| **d == 0).count() as u64);
    if pk.iter().any(|p| p.len() > 1) {
        c.distinct(&(s.desc(), &script));
    }
    if i < 3 {
        c.sample(json!({"config": s.desc(), "loss": loss, "dup": dup, "script": script.iter().take(40).collect::<Vec<_>>(), "delivered": delivered}));
    }
}

/// Correctly signed packets that do not form messages.
fn c02_crafted(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng) {
    let (mut inb, _) = s.end(LONG);
    let (_, mut out) = s.end(LONG);
    let genuine = match out(&payload(r, 4000)) {
        Ok(v) => v,
        Err(_) => return,
    };
    let auth = s.auth();
    if !validated(&genuine, &auth) {
        c.inconclusive("packet format not understood: crafted packets skipped");
        return;
    }
    // Ciphertext of a genuine message, cut into pieces that are then numbered
    // by the adversary.
    let pk: Vec<Pkt> = genuine.iter().map(|b| Pkt::parse(b).unwrap()).collect();
    let fin = pk.iter().find(|p| p.is_final()).unwrap().metadata.r#type;
    let id: u32 = r.gen();
    let k = r.gen_range(1, 6);
    let special = [0u32, 1, 2, 3, 4, 5, 7, 100, 65535, u32::max_value() - 1, u32::max_value()];
    let mut set: Vec<(u32, bool, Vec<u8>)> = vec![];
    for _ in 0..k {
        let idx = if r.gen_bool(0.8) { r.gen_range(0, 6) } else { *special.choose(r).unwrap() };
        let f = r.gen_bool(0.35);
        set.push((idx, f, rand_bytes(r, 10)));
    }
    let mut first_final: Option<u32> = None;
    let mut have: HashSet<u32> = HashSet::new();
    let mut trace = vec![];
    for (idx, f, data) in set.iter() {
        let p = Pkt {
            metadata: Meta { id, index: *idx, r#type: if *f { fin } else { Type::NotFinal } },
            signature: pk[0].signature.clone(),
            data: data.clone(),
        }
        .sign(&auth);
        let bytes = p.bytes();
        trace.push(json!([idx, f]));
        let res = guard(c, &format!("receiving crafted packets {:?}", trace), || inb(&bytes));
        have.insert(*idx);
        if *f && first_final.is_none() {
            first_final = Some(*idx);
        }
        let res = match res {
            Some(x) => x,
            None => return,
        };
        // The only sets that may ever be read as a message are 0..=final.
        let finals: Vec<u32> = set.iter().filter(|x| x.1).map(|x| x.0).collect();
        let whole = finals.iter().any(|n| {
            *n < 1000 && (0..=*n).all(|q| have.contains(&q))
        });
        if let Ok(Some(d)) = res {
            if !whole {
                c.violation("gap-delivery", &format!("{}: packets {:?} (index, final) were delivered as a {}-byte message although no index range 0..=final is complete", s.desc(), trace, d.len()),
                    json!({"case": i, "config": s.desc(), "packets": trace}));
                return;
            }
            if s.ck != CryptKind::Noop {
                c.violation("forged-ciphertext", &format!("{}: random bytes decrypted to a message", s.desc()), json!({"case": i}));
                return;
            }
            // a message was formed: the model's group ends here
            have.clear();
            break;
        }
    }
    // The endpoint still works afterwards.
    let mut ok = false;
    let msg = payload(r, 1500);
    if let Ok(v) = out(&msg) {
        for b in v {
            match guard(c, "receiving after crafted packets", || inb(&b)) {
                Some(Ok(Some(d))) => ok = d == msg,
                Some(Ok(None)) => {}
                Some(Err(_)) => {}
                None => return,
            }
        }
    }
    if !ok {
        c.violation("wedged", &format!("{}: after crafted packets {:?} a genuine message was not delivered", s.desc(), trace), json!({"case": i, "packets": trace}));
    }
    c.eval();
    c.count("crafted_packets", set.len() as u64);
    c.distinct(&(s.desc(), "crafted", set.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
}

// ---------------------------------------------------------------- C03
/// Authenticated wires reject everything that was not signed with the key.
pub fn c03(ctx: &Ctx) -> i32 {
    let n = ctx.pick(3000, 60_000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(60, 600)), move |i| {
        let mut r = c.rng("tamper", i);
        let mut s = Setup::random(&mut r);
        s.ak = *[AuthKind::Sha256, AuthKind::Sha512].choose(&mut r).unwrap();
        s.cache = false;
        c03_case(&c, i, &s, &mut r);
    });
    ctx.finish(
        "genuine packet streams with an adversary that injects, before each genuine packet, packets obtained by bit \
         flips, byte edits, truncation, extension, field splicing between packets and messages, metadata edits under \
         the old signature, zero/short/other-width signatures, or signing with another key; distinct by \
         (configuration, mutation kinds)",
        200,
        &["HMAC-SHA2 itself is trusted: no forgery by computation is attempted"],
    )
}

/// A mutation of a genuine packet stream; returns None if it happens to be
/// semantically the packet it started from.
fn mutate(r: &mut StdRng, all: &[Vec<u8>], other: &DynAuth, k: usize) -> Option<(usize, Vec<u8>)> {
    let base = &all[k];
    let orig = Pkt::parse(base);
    let kind = r.gen_range(0, 16);
    let mut b = base.clone();
    let out = match kind {
        0 | 1 | 2 => {
            for _ in 0..r.gen_range(1, 4) {
                let p = r.gen_range(0, b.len());
                b[p] ^= 1 << r.gen_range(0, 8);
            }
            b
        }
        3 => {
            let p = r.gen_range(0, b.len());
            b[p] = r.gen();
            b
        }
        4 => {
            b.truncate(r.gen_range(1, b.len()));
            b
        }
        5 => {
            let n = r.gen_range(1, 20);
            let e = rand_bytes(r, n);
            b.extend(e);
            b
        }
        6 => {
            let p = r.gen_range(0, b.len());
            b.remove(p);
            b
        }
        7 => {
            let p = r.gen_range(0, b.len());
            b.insert(p, r.gen());
            b
        }
        8 => {
            let n = r.gen_range(1, 600);
            rand_bytes(r, n)
        }
        _ => {
            let mut p = orig.clone()?;
            let q = Pkt::parse(&all[r.gen_range(0, all.len())])?;
            match kind {
                9 => p.signature = q.signature,
                10 => p.data = q.data,
                11 => {
                    match r.gen_range(0, 4) {
                        0 => p.metadata.index = r.gen_range(0, 10),
                        1 => p.metadata.id = q.metadata.id,
                        2 => p.metadata.id = r.gen(),
                        _ => {
                            p.metadata.r#type = if p.is_final() {
                                Type::NotFinal
                            } else {
                                Type::Final { encryption: Enc::Encrypted }
                            }
                        }
                    }
                }
                12 => p.signature = over_there::core::transport::auth::Digest::default(),
                13 => p.signature = over_there::core::transport::auth::Digest::from([0u8; 64]),
                14 => {
                    // signature resized to the other width
                    let d = p.signature.digest().to_vec();
                    p.signature = if d.len() == 32 {
                        let mut x = [0u8; 64];
                        x[..32].copy_from_slice(&d);
                        x.into()
                    } else {
                        let mut x = [0u8; 32];
                        x.copy_from_slice(&d[..32]);
                        x.into()
                    };
                }
                _ => {
                    let n = r.gen_range(1, 200);
                    if r.gen_bool(0.5) {
                        p.data = rand_bytes(r, n);
                    }
                    p = p.sign(other);
                }
            }
            p.bytes()
        }
    };
    if out.is_empty() {
        return None;
    }
    match (Pkt::parse(&out), orig) {
        (Some(a), _) if all.iter().any(|g| Pkt::parse(g).map(|g| g.same(&a)).unwrap_or(false)) => None,
        (None, None) if out == *base => None,
        _ => Some((kind as usize, out)),
    }
}

fn c03_case(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng) {
    let (mut inb, _) = s.end(LONG);
    let (_, mut out) = s.end(LONG);
    let mut okey = rand_bytes(r, 24);
    match r.gen_range(0, 4) {
        0 => okey = vec![],
        1 if !s.akey.is_empty() => {
            okey = s.akey.clone();
            let n = okey.len() - 1;
            okey[n] ^= 1;
        }
        2 if s.akey.len() > 1 => {
            okey = s.akey[..s.akey.len() - 1].to_vec();
            // HMAC pads short keys with zeros: such a key would be the same key
            if s.akey.last() == Some(&0) {
                okey = rand_bytes(r, 24);
            }
        }
        _ => {}
    }
    if okey == s.akey || (okey.is_empty() && s.akey.iter().all(|x| *x == 0)) {
        okey = rand_bytes(r, 33);
    }
    let other = make_auth(*[AuthKind::Sha256, AuthKind::Sha512, AuthKind::Noop].choose(r).unwrap(), &okey);
    let nm = r.gen_range(1, 4);
    let mut msgs = vec![];
    let mut all = vec![];
    let mut owner = vec![];
    for m in 0..nm {
        let n = r.gen_range(1, 2500);
        let p = payload(r, n);
        let v = match out(&p) {
            Ok(v) => v,
            Err(_) => return,
        };
        for b in v {
            all.push(b);
            owner.push(m);
        }
        msgs.push(p);
    }
    let mut left: Vec<usize> = (0..nm).map(|m| owner.iter().filter(|o| **o == m).count()).collect();
    let mut kinds = vec![];
    let mut order: Vec<usize> = (0..all.len()).collect();
    if r.gen_bool(0.5) {
        order.shuffle(r);
    }
    for k in order {
        for _ in 0..r.gen_range(0, 4) {
            if let Some((kind, bytes)) = mutate(r, &all, &other, k) {
                kinds.push(kind);
                c.count("forged_packets", 1);
                let res = match guard(c, "receiving a tampered packet", || inb(&bytes)) {
                    Some(x) => x,
                    None => return,
                };
                if let Ok(Some(d)) = res {
                    c.violation("forgery-delivered", &format!("{}: a packet made by mutation {} completed a {}-byte message", s.desc(), kind, d.len()),
                        json!({"case": i, "config": s.desc(), "mutation": kind, "packet": hex(&bytes)}));
                    return;
                }
                if res.is_ok() {
                    // accepted into reassembly although it was never signed
                    c.violation("forgery-accepted", &format!("{}: a packet made by mutation {} was accepted as part of a message", s.desc(), kind),
                        json!({"case": i, "config": s.desc(), "mutation": kind, "packet": hex(&bytes)}));
                    return;
                }
            }
        }
        let m = owner[k];
        left[m] -= 1;
        let res = match guard(c, "receiving a genuine packet", || inb(&all[k])) {
            Some(x) => x,
            None => return,
        };
        let bad = match &res {
            Ok(Some(d)) => left[m] != 0 || *d != msgs[m],
            Ok(None) => left[m] == 0,
            Err(_) => true,
        };
        if bad {
            c.violation("genuine-disturbed", &format!("{}: with tampered packets {:?} injected, genuine message {} was {}", s.desc(), kinds, m,
                match &res { Ok(Some(d)) => format!("delivered wrongly ({} bytes, {} packets left)", d.len(), left[m]), Ok(None) => "not delivered".into(), Err(e) => format!("rejected: {}", e) }),
                json!({"case": i, "config": s.desc(), "mutations": kinds}));
            return;
        }
    }
    c.eval();
    c.count("genuine_packets", all.len() as u64);
    if !kinds.is_empty() {
        c.distinct(&(s.desc(), &kinds));
    }
    if i < 3 {
        c.sample(json!({"config": s.desc(), "mutations": kinds, "messages": msgs.len()}));
    }
}

// ---------------------------------------------------------------- C04
/// Confidentiality and integrity of encrypted messages, independent of signing.
pub fn c04(ctx: &Ctx) -> i32 {
    let n = ctx.pick(3000, 60_000);
    let c = ctx.clone();
    let nonces: Arc<Mutex<HashSet<Vec<u8>>>> = Default::default();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(60, 600)), move |i| {
        let mut r = c.rng("crypt", i);
        let mut s = Setup::random(&mut r);
        s.ck = CRYPTS[1 + r.gen_range(0, 6)];
        s.cache = false;
        c04_case(&c, i, &s, &mut r, &nonces);
    });
    nonce_samples(ctx);
    keys(ctx);
    ctx.finish(
        "every AES mode x authenticator; the emitted packets are searched for 8-byte windows of the plaintext, repeated \
         sends are compared, nonces collected over the whole run must be unique; ciphertext, tag and nonce are edited \
         and re-signed with the right key, and whole streams are fed to an endpoint with another cipher key; nothing \
         may be delivered; distinct by (configuration, attack)",
        200,
        &["AES-GCM/SIV primitives are trusted; what is observed is that the wire uses them for every byte"],
    )
}

/// Keys are taken as they are or not at all, and new ones are random.
fn keys(ctx: &Ctx) {
    use over_there::core::transport::crypto::key;
    let mut r = ctx.rng("keys", 0);
    for n in 0..200usize {
        let b = rand_bytes(&mut r, n);
        ctx.eval();
        match (key::Key::from_slice(&b), [16, 32, 64].contains(&n)) {
            (Some(k), true) if k.as_slice() == &b[..] && k.key_size().size_in_bytes() == n && usize::from(k.key_size()) == n => {}
            (None, false) => {}
            (k, _) => return ctx.violation("key-bytes", &format!("{} bytes made {:?}", n, k.map(|k| k.as_slice().len())), json!({"bytes": hex(&b)})),
        }
    }
    let make: Vec<(&str, fn() -> Vec<u8>)> = vec![
        ("128", || key::new_128bit_key().to_vec()),
        ("256", || key::new_256bit_key().to_vec()),
        ("512", || key::new_512bit_key().to_vec()),
        ("size 128", || key::KeySize::Key128Bits.into()),
        ("size 256", || key::KeySize::Key256Bits.into()),
        ("size 512", || key::KeySize::Key512Bits.into()),
    ];
    for (name, f) in make {
        let v: Vec<Vec<u8>> = (0..3000).map(|_| f()).collect();
        let n: usize = name.rsplit(' ').next().unwrap().parse::<usize>().unwrap();
        ctx.eval();
        ctx.distinct(&("new keys", name));
        if v.iter().any(|k| k.len() * 8 != n) {
            return ctx.violation("key-size", &format!("new keys of {} bits have another size", name), json!({}));
        }
        for bit in 0..n {
            let ones = v.iter().filter(|x| x[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
            if (ones - 1500.0).abs() > 4.0 * 3000f64.sqrt() {
                return ctx.violation("key-biased", &format!("bit {} of 3000 new keys of {} bits is set in {} of them", bit, name, ones), json!({}));
            }
        }
    }
}

/// Every nonce a cipher hands out, over instances, clones, threads and
/// processes: none twice, and every bit of it looks like a fair coin.
fn nonce_samples(ctx: &Ctx) {
    let per = ctx.pick(40_000u64, 400_000);
    let sizes = [("12", 12usize), ("16", 16usize)];
    let mut all: Vec<Vec<Vec<u8>>> = vec![vec![], vec![]];
    let mut rng = ctx.rng("nonce samples", 0);
    for k in 1..CRYPTS.len() {
        let key = rand_key(&mut rng);
        let base = make_crypt(CRYPTS[k], &key);
        let hs: Vec<_> = (0..4)
            .map(|t| {
                // two threads share one instance, the others have their own
                let c = if t < 2 { base.clone() } else { make_crypt(CRYPTS[k], &key) };
                let c = if t == 3 { with_cache(c, 100) } else { c };
                std::thread::spawn(move || {
                    (0..per / 4).filter_map(|_| c.new_encrypt_associated_data().nonce().map(|n| n.as_slice().to_vec())).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for n in h.join().unwrap_or_default() {
                match sizes.iter().position(|s| s.1 == n.len()) {
                    Some(p) => all[p].push(n),
                    None => return ctx.violation("nonce-size", &format!("{:?} made a nonce of {} bytes", CRYPTS[k], n.len()), json!({})),
                }
            }
        }
    }
    // other processes
    for _ in 0..4 {
        let out = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(&["child", "nonces", "200"])
            .env_remove("MON_INNER")
            .output();
        if let Ok(o) = out {
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let n: Vec<u8> = (0..l.len() / 2).filter_map(|k| u8::from_str_radix(&l[2 * k..2 * k + 2], 16).ok()).collect();
                if let Some(p) = sizes.iter().position(|s| s.1 == n.len()) {
                    all[p].push(n);
                    ctx.count("nonces_of_other_processes", 1);
                }
            }
        }
    }
    for (k, v) in all.iter_mut().enumerate() {
        ctx.eval();
        ctx.count("nonces", v.len() as u64);
        ctx.distinct(&("nonce sample", k, v.len()));
        let n = v.len();
        if n < 1000 {
            ctx.inconclusive("too few nonces were handed out");
            continue;
        }
        // ones per bit: 8 standard deviations of a fair coin
        let slack = 4.0 * (n as f64).sqrt();
        for bit in 0..sizes[k].1 * 8 {
            let ones = v.iter().filter(|x| x[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
            if (ones - n as f64 / 2.0).abs() > slack {
                ctx.violation("nonce-biased", &format!("bit {} of {} nonces of {} bytes is set in {} of them", bit, n, sizes[k].0, ones), json!({"bit": bit}));
                return;
            }
        }
        // no two successive nonces may be related either
        for bit in 0..sizes[k].1 * 8 {
            let flips = v.windows(2).filter(|w| (w[0][bit / 8] ^ w[1][bit / 8]) >> (bit % 8) & 1 == 1).count() as f64;
            if (flips - (n - 1) as f64 / 2.0).abs() > slack {
                ctx.violation("nonce-predictable", &format!("bit {} of nonces of {} bytes changes {} times in {}", bit, sizes[k].0, flips, n - 1), json!({"bit": bit}));
                return;
            }
        }
        v.sort();
        if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) {
            ctx.violation("nonce-reused", &format!("nonce {} was handed out twice among {}", hex(&w[0]), n), json!({"nonces": n}));
        }
    }
}

fn c04_case(c: &Ctx, i: u64, s: &Setup, r: &mut StdRng, nonces: &Mutex<HashSet<Vec<u8>>>) {
    let (_, mut out) = s.end(LONG);
    let len = match r.gen_range(0, 12) {
        0 => r.gen_range(4000, 40_000),
        _ => r.gen_range(16, 4000),
    };
    let msg = rand_bytes(r, len);
    let wit = |a: &str| json!({"case": i, "config": s.desc(), "len": len, "attack": a});
    let one = match out(&msg) {
        Ok(v) => v,
        Err(e) => {
            c.violation("encode-refused", &format!("{}: {}", s.desc(), e), wit("none"));
            return;
        }
    };
    let two = out(&msg).unwrap_or_default();
    // 1. no plaintext on the wire (8 random bytes appear by chance with p ~ 2^-40)
    let windows: HashSet<&[u8]> = msg.windows(8).collect();
    let cat: Vec<u8> = one
        .iter()
        .flat_map(|b| Pkt::parse(b).map(|p| p.data).unwrap_or_default())
        .collect();
    for b in one.iter().map(|b| &b[..]).chain(std::iter::once(&cat[..])) {
        if let Some(w) = b.windows(8).find(|w| windows.contains(*w)) {
            c.violation("plaintext-on-wire", &format!("{}: 8 plaintext bytes {} appear in what is sent", s.desc(), hex(w)), wit("none"));
            return;
        }
    }
    let auth = s.auth();
    if !validated(&one, &auth) || !validated(&two, &auth) {
        c.inconclusive("packet format not understood");
        return;
    }
    let parse = |v: &Vec<Vec<u8>>| v.iter().map(|b| Pkt::parse(b).unwrap()).collect::<Vec<_>>();
    let (p1, p2) = (parse(&one), parse(&two));
    let data = |p: &Vec<Pkt>| p.iter().flat_map(|p| p.data.clone()).collect::<Vec<u8>>();
    // 2. fresh nonce per message, so equal messages never look equal
    if data(&p1) == data(&p2) {
        c.violation("deterministic-ciphertext", &format!("{}: sending a message twice produced the same ciphertext", s.desc()), wit("repeat"));
        return;
    }
    for p in [&p1, &p2].iter() {
        if let Some(Type::Final { encryption: Enc::EncryptedWithNonce { nonce } }) =
            p.iter().find(|x| x.is_final()).map(|x| x.metadata.r#type)
        {
            if !nonces.lock().unwrap().insert(nonce.as_slice().to_vec()) {
                c.violation("nonce-reused", &format!("{}: nonce {} was used for two messages", s.desc(), hex(nonce.as_slice())), wit("repeat"));
                return;
            }
            c.count("nonces", 1);
        } else {
            c.violation("no-nonce", &format!("{}: encrypted message carries no nonce", s.desc()), wit("none"));
            return;
        }
    }
    // 3. edited streams (re-signed with the right key) deliver nothing
    for _ in 0..6 {
        let mut v = p1.clone();
        let attack = r.gen_range(0, 8);
        let name = match attack {
            0 | 1 => {
                let k = r.gen_range(0, v.len());
                if v[k].data.is_empty() {
                    continue;
                }
                let p = r.gen_range(0, v[k].data.len());
                v[k].data[p] ^= 1 << r.gen_range(0, 8);
                "flip a ciphertext bit"
            }
            2 => {
                let k = v.len() - 1;
                let n = v[k].data.len();
                v[k].data.truncate(n - 1);
                if n == 1 {
                    continue;
                }
                "drop last byte"
            }
            3 => {
                let k = r.gen_range(0, v.len());
                v[k].data.push(r.gen());
                "append a byte"
            }
            4 => {
                let k = v.len() - 1;
                if let Type::Final { encryption: Enc::EncryptedWithNonce { nonce } } = v[k].metadata.r#type {
                    let mut n = nonce.as_slice().to_vec();
                    let p = r.gen_range(0, n.len());
                    n[p] ^= 1 << r.gen_range(0, 8);
                    v[k].metadata.r#type = Type::Final {
                        encryption: Enc::EncryptedWithNonce { nonce: nonce.from_slice(&n).unwrap() },
                    };
                }
                "flip a nonce bit"
            }
            5 => {
                let k = v.len() - 1;
                v[k].metadata.r#type = Type::Final {
                    encryption: *[Enc::None, Enc::Encrypted].choose(r).unwrap(),
                };
                "claim it is not encrypted / has no nonce"
            }
            6 => {
                // ciphertext of one message under the nonce of another
                let k = v.len() - 1;
                let t = p2.iter().find(|x| x.is_final()).unwrap().metadata.r#type;
                v[k].metadata.r#type = t;
                "nonce of another message"
            }
            _ => {
                if v.len() < 2 {
                    continue;
                }
                let a = r.gen_range(0, v.len() - 1);
                let d = v[a].data.clone();
                v[a].data = v[a + 1].data.clone();
                v[a + 1].data = d;
                if v[a].data == v[a + 1].data {
                    continue;
                }
                "swap two packets' data"
            }
        };
        let (mut inb, _) = s.end(LONG);
        for p in v {
            let b = p.sign(&auth).bytes();
            match guard(c, "decrypting an edited message", || inb(&b)) {
                None => return,
                Some(Ok(Some(d))) => {
                    c.violation("tampered-ciphertext-delivered", &format!("{}: {} -> delivered {} bytes (equal to the original: {})", s.desc(), name, d.len(), d == msg), wit(name));
                    return;
                }
                _ => {}
            }
        }
        c.eval();
        c.distinct(&(s.desc(), name, len));
        // the receiver still works after a failed decryption
        let fresh = out(&msg).unwrap_or_default();
        let mut ok = false;
        for b in fresh {
            if let Some(Ok(Some(d))) = guard(c, "receiving", || inb(&b)) {
                ok = d == msg;
            }
        }
        if !ok {
            c.violation("wedged-after-tampering", &format!("{}: after \"{}\" the next genuine message was not delivered", s.desc(), name), wit(name));
            return;
        }
    }
    // 4. another key, another cipher: nothing comes out
    let mut wrong = Setup { ckey: rand_key(r), ..Setup::random(r) };
    wrong.ak = s.ak;
    wrong.akey = s.akey.clone();
    wrong.cache = false;
    wrong.ck = s.ck;
    if r.gen_bool(0.5) {
        // one bit of the used part of the key differs
        wrong.ckey = s.ckey;
        let n = match s.ck {
            CryptKind::Gcm128 | CryptKind::GcmSiv128 => 16,
            CryptKind::Gcm256 | CryptKind::GcmSiv256 | CryptKind::Siv128 => 32,
            _ => 64,
        };
        wrong.ckey[r.gen_range(0, n)] ^= 1 << r.gen_range(0, 8);
    } else if r.gen_bool(0.5) {
        wrong.ck = CRYPTS[1 + r.gen_range(0, 6)];
    }
    let (mut inb, _) = wrong.end(LONG);
    for b in &one {
        if let Some(Ok(Some(_))) = guard(c, "decrypting with another key", || inb(b)) {
            c.violation("wrong-key-delivered", &format!("{}: delivered by an endpoint with another key ({})", s.desc(), wrong.desc()), wit("wrong key"));
            return;
        }
    }
    c.eval();
    c.distinct(&(s.desc(), "wrong key", len));
    if i < 3 {
        c.sample(json!({"config": s.desc(), "len": len, "packets": one.len()}));
    }
}

// ---------------------------------------------------------------- C05
/// Replay protection: at most one acceptance per nonce.
pub fn c05(ctx: &Ctx) -> i32 {
    // sequential histories against a model
    let n = ctx.pick(1500, 30_000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(30, 300)), move |i| {
        let mut r = c.rng("history", i);
        let ck = CRYPTS[r.gen_range(0, 7)];
        let cap = *[0usize, 1, 2, 5, 16].choose(&mut r).unwrap();
        let key = rand_key(&mut r);
        let raw = make_crypt(ck, &key);
        let b = NonceCacheBicrypter::new(raw.clone(), cap);
        let b2 = b.clone();
        let n96 = !matches!(ck, CryptKind::Siv128 | CryptKind::Siv256);
        let pool: Vec<Nonce> = (0..cap * 2 + 3)
            .map(|_| if n96 { Nonce::from(r.gen::<[u8; 12]>()) } else { Nonce::from(r.gen::<[u8; 16]>()) })
            .collect();
        let msgs: Vec<Vec<u8>> = pool.iter().map(|_| rand_bytes(&mut r, 30)).collect();
        let ct: Vec<Vec<u8>> = pool
            .iter()
            .zip(&msgs)
            .map(|(n, m)| raw.encrypt(m, &AssociatedData::from(*n)).unwrap())
            .collect();
        let mut accepted: Vec<usize> = vec![]; // order of acceptance
        let mut presented: Vec<(usize, bool)> = vec![]; // presentations that may occupy the cache
        let mut trace = vec![];
        for _ in 0..r.gen_range(5, 60) {
            // favour recently used nonces
            let k = if r.gen_bool(0.5) && !accepted.is_empty() {
                accepted[accepted.len() - 1 - r.gen_range(0, accepted.len().min(cap + 2))]
            } else {
                r.gen_range(0, pool.len())
            };
            let ad = AssociatedData::from(pool[k]);
            let who = if r.gen() { &b } else { &b2 };
            let op = r.gen_range(0, 5);
            let garbage = op == 4;
            let res = if op == 0 {
                who.encrypt(&msgs[k], &ad).map(|x| (x == ct[k]))
            } else if garbage {
                // undecryptable data is no use of its nonce
                let mut g = ct[k].clone();
                if ck == CryptKind::Noop { g.push(0) } else { g[0] ^= 1 }
                let x = who.decrypt(&g, &ad).map(|_| true);
                if ck != CryptKind::Noop && x.is_ok() {
                    c.violation("garbage-accepted", &format!("{:?}: edited ciphertext decrypted", ck), json!({"case": i}));
                }
                x
            } else {
                who.decrypt(&ct[k], &ad).map(|x| x == msgs[k])
            };
            trace.push((op, k, res.is_ok()));
            let wit = || json!({"case": i, "cipher": format!("{:?}", ck), "capacity": cap, "history(op,nonce,accepted)": trace});
            match res {
                Ok(good) => {
                    if !good {
                        c.violation("wrong-result", &format!("{:?} cap {}: data differs through the nonce cache", ck, cap), wit());
                    }
                    // accepted before, with fewer than `cap` distinct nonces since?
                    if let Some(p) = presented.iter().rposition(|x| *x == (k, true)) {
                        let since: HashSet<usize> = presented[p + 1..].iter().filter(|x| x.1 && x.0 != k).map(|x| x.0).collect();
                        if since.len() < cap {
                            c.violation("replay-accepted", &format!("{:?} cap {}: nonce {} accepted again with only {} other nonces since", ck, cap, k, since.len()), wit());
                        }
                    }
                    accepted.push(k);
                    presented.push((k, true));
                }
                Err(CryptError::NonceAlreadyUsed { .. }) => {
                    let used_before = accepted.contains(&k);
                    if cap == 0 || !used_before {
                        c.violation("fresh-nonce-refused", &format!("{:?} cap {}: nonce {} refused although never used", ck, cap, k), wit());
                    }
                    // a refused use is no use: it must not push others out
                    presented.push((k, false));
                }
                Err(e) => {
                    if !garbage {
                        c.violation("unexpected-error", &format!("{:?} cap {}: {}", ck, cap, e), wit());
                    }
                }
            }
        }
        c.eval();
        c.count("sequential_operations", trace.len() as u64);
        c.distinct(&(ck, cap, trace));
    });
    // large caches, which forgeries must not flush either
    let n = ctx.pick(32, 400);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(20, 100)), move |i| {
        let mut r = c.rng("large", i);
        let ck = CRYPTS[r.gen_range(0, 7)];
        let cap = match r.gen_range(0, 4) { 0 => r.gen_range(17, 300), 1 => r.gen_range(300, 2000), 2 => r.gen_range(2000, 10_000), _ => 1usize << r.gen_range(5, 15) };
        let raw = make_crypt(ck, &rand_key(&mut r));
        let b = NonceCacheBicrypter::new(raw.clone(), cap);
        let n96 = !matches!(ck, CryptKind::Siv128 | CryptKind::Siv256);
        let mut nonce = |r: &mut StdRng| if n96 { Nonce::from(r.gen::<[u8; 12]>()) } else { Nonce::from(r.gen::<[u8; 16]>()) };
        let extra = r.gen_range(0, 40);
        let mut used = vec![];
        for k in 0..cap + extra {
            let ad = AssociatedData::from(nonce(&mut r));
            let ct = raw.encrypt(&[k as u8], &ad).unwrap();
            if b.decrypt(&ct, &ad).ok() != Some(vec![k as u8]) {
                c.violation("fresh-nonce-refused", &format!("{:?} cap {}: fresh nonce {} refused", ck, cap, k), json!({"case": i}));
                return;
            }
            used.push((ad, ct));
        }
        if ck != CryptKind::Noop {
            for _ in 0..r.gen_range(0, cap * 2) {
                let ad = AssociatedData::from(nonce(&mut r));
                let n = r.gen_range(0, 40);
                if b.decrypt(&rand_bytes(&mut r, n), &ad).is_ok() {
                    c.violation("garbage-accepted", &format!("{:?}: random bytes decrypted", ck), json!({"case": i}));
                }
                c.count("forgeries_against_large_caches", 1);
            }
        }
        // the oldest that must be remembered is the most telling
        for k in (extra..used.len()).take(5).chain((0..200).map(|_| r.gen_range(extra, used.len()))) {
            let (ad, ct) = &used[k];
            if b.decrypt(ct, ad).is_ok() {
                c.violation("replay-accepted", &format!("{:?} cap {}: nonce accepted again with {} accepted since", ck, cap, used.len() - 1 - k), json!({"case": i, "cipher": format!("{:?}", ck), "capacity": cap}));
                return;
            }
        }
        c.eval();
        c.count("large_cache_nonces", used.len() as u64);
        c.distinct(&("large", ck, cap));
    });
    // a recorded session played back to the receiver
    let n = ctx.pick(300, 4000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(30, 200)), move |i| {
        let mut r = c.rng("playback", i);
        let mut s = Setup::random(&mut r);
        s.cache = true;
        while s.ck == CryptKind::Noop {
            s.ck = *CRYPTS.choose(&mut r).unwrap();
        }
        let (mut inb, _) = s.end(LONG);
        let (_, mut out) = s.end(LONG);
        let nmsg = r.gen_range(1, 12);
        let mut tape = vec![];
        for m in 0..nmsg {
            let n = r.gen_range(1, 2500);
            let p = rand_bytes(&mut r, n);
            let pk = match out(&p) { Ok(v) => v, Err(_) => return };
            let np = pk.len();
            let mut got = 0;
            for x in pk {
                if let Ok(Some(d)) = inb(&x) {
                    if d != p {
                        c.violation("playback-corrupt", "message differs", json!({"case": i}));
                    }
                    got += 1;
                }
                tape.push((m, x));
            }
            if got != 1 {
                c.violation("fresh-message-refused", &format!("{}: message of {} packets delivered {} times", s.desc(), np, got), json!({"case": i}));
                return;
            }
        }
        let passes = r.gen_range(1, 4);
        for pass in 0..passes {
            if r.gen() {
                tape.shuffle(&mut r);
            }
            for (m, x) in &tape {
                match guard(&c, "playing back a session", || inb(x)) {
                    Some(Ok(Some(_))) => {
                        c.violation("session-replayed", &format!("{}: message {} of {} delivered again in playback {}", s.desc(), m, nmsg, pass), json!({"case": i, "config": s.desc()}));
                        return;
                    }
                    Some(_) => c.count("packets_played_back", 1),
                    None => return,
                }
            }
        }
        c.eval();
        c.distinct(&("tape", s.desc(), tape.len(), passes));
    });
    // concurrent presentations of one nonce
    let rounds = ctx.pick(4000u64, 60_000);
    let threads = 6usize;
    let mut r = ctx.rng("race", 0);
    let mut winners = HashMap::new();
    let t0 = Instant::now();
    let key = rand_key(&mut r);
    for ck in [CryptKind::Noop, CryptKind::Gcm128, CryptKind::Siv256].iter() {
        let raw = make_crypt(*ck, &key);
        let b = NonceCacheBicrypter::new(raw.clone(), 1_000_000);
        let per = rounds / 3;
        let items: Arc<Vec<(AssociatedData, Vec<u8>)>> = Arc::new(
            (0..per)
                .map(|_| {
                    let n = if *ck == CryptKind::Siv256 { Nonce::from(r.gen::<[u8; 16]>()) } else { Nonce::from(r.gen::<[u8; 12]>()) };
                    let ad = AssociatedData::from(n);
                    let ct = raw.encrypt(b"over there", &ad).unwrap();
                    (ad, ct)
                })
                .collect(),
        );
        let bar = Arc::new(Barrier::new(threads));
        let wins: Arc<Vec<std::sync::atomic::AtomicU64>> =
            Arc::new((0..per).map(|_| std::sync::atomic::AtomicU64::new(0)).collect());
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (b, items, bar, wins) = (b.clone(), items.clone(), bar.clone(), wins.clone());
                std::thread::spawn(move || {
                    for (k, (ad, ct)) in items.iter().enumerate() {
                        bar.wait();
                        if t >= 4 && k % 2 == 1 {
                            // contention on another key
                            let _ = b.decrypt(ct, &AssociatedData::from(Nonce::from([t as u8; 12])));
                            continue;
                        }
                        if b.decrypt(ct, ad).is_ok() {
                            wins[k].fetch_add(1 + 100 * (1 << (8 * t as u64).min(40)), std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        for k in 0..per as usize {
            let w = wins[k].load(std::sync::atomic::Ordering::Relaxed);
            let cnt = w % 100;
            *winners.entry(w / 100).or_insert(0u64) += 1;
            ctx.eval();
            ctx.distinct(&("race", *ck, w));
            if cnt != 1 {
                ctx.violation(
                    if cnt == 0 { "fresh-nonce-refused-concurrently" } else { "replay-accepted-concurrently" },
                    &format!("{:?}: one nonce presented by {} threads at once was accepted {} times (round {})", ck, threads, cnt, k),
                    json!({"round": k, "threads": threads}),
                );
                if ctx.done() {
                    break;
                }
            }
        }
    }
    ctx.count("concurrent_rounds", rounds);
    ctx.count("distinct_winner_patterns", winners.len() as u64);
    ctx.count("race_ms", t0.elapsed().as_millis() as u64);
    ctx.sample(json!({"rounds": rounds, "threads": threads, "distinct winner patterns": winners.len()}));
    ctx.report_panics("using the nonce cache");
    ctx.finish(
        "random histories of encrypt/decrypt/garbage over few nonces, capacities 0,1,2,5,16, through two clones, \
         against an acceptance model; and barrier-synchronised rounds in which 4-6 threads present one nonce at once, \
         each round must have exactly one acceptance; distinct by history or (cipher, winning thread)",
        500,
        &["OS scheduling supplies the interleavings of the concurrent rounds"],
    )
}

// ---------------------------------------------------------------- C06
/// No packet exceeds the transmission size it was made for.
pub fn c06(ctx: &Ctx) -> i32 {
    let n = ctx.pick(6000, 100_000);
    let c = ctx.clone();
    par_cases(ctx, n, Duration::from_secs(ctx.pick(60, 600)), move |i| {
        let mut r = c.rng("size", i);
        let mut s = Setup::random(&mut r);
        s.size = match r.gen_range(0, 4) {
            0 => *STD_SIZES.choose(&mut r).unwrap(),
            1 => r.gen_range(1, 120),
            2 => r.gen_range(120, 508),
            _ => r.gen_range(120, 9000),
        };
        let (_, mut out) = s.end(LONG);
        let (mut inb, _) = s.end(LONG);
        for _ in 0..4 {
            let l = if s.size < 250 { r.gen_range(1, 400) } else { pick_len(&mut r, s.size / 2, 12_000) };
            let m = payload(&mut r, l);
            let res = match guard(&c, "encoding", || out(&m)) {
                Some(x) => x,
                None => return,
            };
            match res {
                Err(e) => {
                    c.count("refused", 1);
                    if s.size >= 508 {
                        c.violation("encode-refused", &format!("{}: {}", s.desc(), e), json!({"case": i}));
                        return;
                    }
                }
                Ok(v) => {
                    let worst = v.iter().map(|p| p.len()).max().unwrap_or(0);
                    if worst > s.size {
                        c.violation("packet-too-big", &format!("{}: a {}-byte message produced a packet of {} bytes", s.desc(), l, worst),
                            json!({"case": i, "config": s.desc(), "len": l, "packet": worst}));
                        return;
                    }
                    c.count("packets", v.len() as u64);
                    // what is received through a buffer of that size is the message
                    let mut got = None;
                    for p in &v {
                        if let Some(Ok(Some(d))) = guard(&c, "receiving", || inb(&p[..p.len().min(s.size)])) {
                            got = Some(d);
                        }
                    }
                    if got.as_ref() != Some(&m) {
                        c.violation("not-received", &format!("{}: {}-byte message not received through {}-byte buffers", s.desc(), l, s.size), json!({"case": i}));
                        return;
                    }
                    c.distinct(&(s.desc(), l, v.len()));
                    if i < 3 {
                        c.sample(json!({"config": s.desc(), "len": l, "packets": v.len(), "largest": worst}));
                    }
                }
            }
            c.eval();
        }
    });
    ctx.finish(
        "random authenticator x cipher x transmission size 1..9000 x payload; every emitted packet is measured and then \
         received through a buffer of the transmission size; distinct by (configuration, length, packet count)",
        500,
        &[],
    )
}

// ---------------------------------------------------------------- C07
/// Incomplete messages expire; complete ones do not.
pub fn c07(ctx: &Ctx) -> i32 {
    // Retained memory of one endpoint, observed by the allocator.
    for rep in 0..ctx.pick(2u64, 6) {
        let mut r = ctx.rng("heap", rep);
        let mut s = Setup::random(&mut r);
        s.cache = false;
        s.size = 508;
        let (_, mut out) = s.end(LONG);
        let groups = 400usize;
        let mut firsts = vec![];
        for _ in 0..groups {
            let m = payload(&mut r, 2000);
            let v = out(&m).unwrap_or_default();
            if v.len() > 1 {
                let k = r.gen_range(0, v.len());
                firsts.push(v[k].clone());
            }
        }
        let tail: Vec<Vec<u8>> = (0..3).flat_map(|_| out(b"tail").unwrap_or_default()).collect();
        let ttl = Duration::from_millis(1500);
        let (mut inb, _) = s.end(ttl);
        if let Some(b) = tail.get(0) {
            let _ = inb(b);
        }
        let t0 = Instant::now();
        let base = live_bytes();
        for b in &firsts {
            let _ = inb(b);
        }
        let fed = t0.elapsed();
        let held = live_bytes() - base;
        if fed > ttl / 2 || held < (groups as i64) * 100 {
            ctx.inconclusive("retained memory not observable (slow machine or partial packets not kept)");
            continue;
        }
        std::thread::sleep(ttl + Duration::from_millis(300));
        if let Some(b) = tail.get(1) {
            let _ = inb(b);
        }
        let after = live_bytes() - base;
        ctx.eval();
        ctx.count("partial_messages_expired", firsts.len() as u64);
        ctx.sample(json!({"partial messages": firsts.len(), "bytes held": held, "bytes after expiry": after}));
        if after > held / 3 {
            ctx.violation("memory-kept", &format!("{}: {} unfinished messages held {} bytes; {} still held after their time was over and another message arrived", s.desc(), firsts.len(), held, after), json!({"rep": rep}));
        }
    }
    // What finished messages leave behind in a long-lived pair of endpoints.
    for rep in 0..ctx.pick(4u64, 14) {
        let mut r = ctx.rng("growth", rep);
        let mut s = Setup::random(&mut r);
        s.cache = false;
        s.ck = CRYPTS[(rep as usize + r.gen_range(0, 7)) % 7];
        if rep % 4 == 0 && s.ck == CryptKind::Noop {
            s.ck = CryptKind::Gcm256;
        }
        let (_, mut out) = s.end(LONG);
        let (mut inb, _) = s.end(LONG);
        let msg = payload(&mut r, 700);
        let n = 1500usize;
        let mut run = |n: usize| -> usize {
            let mut got = 0;
            for _ in 0..n {
                for b in out(&msg).unwrap_or_default() {
                    if let Ok(Some(_)) = inb(&b) {
                        got += 1;
                    }
                }
            }
            got
        };
        run(300);
        let base = live_bytes();
        let got = run(n);
        let grown = live_bytes() - base;
        ctx.eval();
        ctx.count("messages_through_long_lived_endpoints", got as u64);
        ctx.distinct(&("growth", s.desc()));
        ctx.sample(json!({"config": s.desc(), "messages": got, "bytes grown": grown}));
        if grown > 16 * n as i64 {
            ctx.violation("memory-grows-per-message", &format!("{}: {} delivered messages left {} bytes behind", s.desc(), got, grown), json!({"rep": rep}));
        }
    }
    // Delivery around the deadline, many endpoints sharing a few sleeps.
    let batches = ctx.pick(3u64, 30);
    for batch in 0..batches {
        let ttl = Duration::from_millis(*[700u64, 1000].choose(&mut ctx.rng("ttl", batch)).unwrap());
        c07_batch(ctx, batch, ttl);
        if ctx.done() {
            break;
        }
    }
    ctx.report_panics("receiving packets");
    ctx.finish(
        "per endpoint: one message whose packets arrive in 2-3 bursts separated by measured gaps; delivered iff its last \
         packet arrives within the configured time of its first (cases measured too close to the limit are dropped), a \
         fresh message always gets through; plus the bytes retained by hundreds of abandoned messages, read from the \
         allocator; distinct by (configuration, burst split, gaps)",
        50,
        &["real time; cases within 150 ms of the limit are not judged"],
    )
}

struct Exp {
    s: Setup,
    inb: In,
    pk: Vec<Vec<u8>>,
    msg: Vec<u8>,
    cuts: Vec<usize>,
    gaps: Vec<u64>,
    first: Option<(Instant, Instant)>,
    late_sure: bool,
    early_sure: bool,
    fed: usize,
}

fn c07_batch(ctx: &Ctx, batch: u64, ttl: Duration) {
    let mut r = ctx.rng("batch", batch);
    let mut exps = vec![];
    for _ in 0..200 {
        let mut s = Setup::random(&mut r);
        s.cache = false;
        s.size = 508;
        let (inb, _) = s.end(ttl);
        let (_, mut out) = s.end(ttl);
        let n = r.gen_range(600, 3000);
        let msg = payload(&mut r, n);
        let mut pk = out(&msg).unwrap_or_default();
        if pk.len() < 3 {
            continue;
        }
        if r.gen() {
            pk.shuffle(&mut r);
        }
        let a = r.gen_range(1, pk.len() - 1);
        let b = r.gen_range(a + 1, pk.len());
        // ticks are ttl/4: bursts at tick 0, g1, g1+g2
        let gaps = vec![*[0u64, 1, 2, 5, 6].choose(&mut r).unwrap(), *[0u64, 1, 3, 4, 6].choose(&mut r).unwrap()];
        exps.push(Exp { s, inb, pk, msg, cuts: vec![a, b], gaps, first: None, late_sure: false, early_sure: true, fed: 0 });
    }
    let tick = ttl / 4;
    let start = Instant::now();
    for t in 0..14u64 {
        let due = start + tick * t as u32 + Duration::from_millis(10);
        let now = Instant::now();
        if due > now {
            std::thread::sleep(due - now);
        }
        for e in exps.iter_mut() {
            let at = [0, e.gaps[0], e.gaps[0] + e.gaps[1]];
            for burst in 0..3 {
                if at[burst] != t {
                    continue;
                }
                let lo = if burst == 0 { 0 } else { e.cuts[burst - 1] };
                let hi = if burst == 2 { e.pk.len() } else { e.cuts[burst] };
                for k in lo..hi {
                    let before = Instant::now();
                    let res = (e.inb)(&e.pk[k]);
                    let after = Instant::now();
                    e.fed += 1;
                    let f = *e.first.get_or_insert((before, after));
                    // sure late: even the latest start is older than ttl
                    let min_age = before.checked_duration_since(f.1).unwrap_or_default();
                    let max_age = after.duration_since(f.0);
                    let last = e.fed == e.pk.len();
                    if min_age > ttl + Duration::from_millis(150) {
                        e.late_sure = true;
                    }
                    if max_age + Duration::from_millis(150) > ttl {
                        e.early_sure = false;
                    }
                    let wit = || json!({"batch": batch, "config": e.s.desc(), "ttl_ms": ttl.as_millis() as u64, "gaps_ticks_of_ttl/4": e.gaps, "cuts": e.cuts, "packets": e.pk.len(), "age_ms": max_age.as_millis() as u64});
                    match res {
                        Ok(Some(d)) => {
                            if d != e.msg {
                                ctx.violation("corrupt-delivery", "wrong bytes delivered around expiry", wit());
                            } else if e.late_sure {
                                ctx.violation("expired-part-used", &format!("{}: message delivered although its first packet was {} ms old (limit {} ms)", e.s.desc(), min_age.as_millis(), ttl.as_millis()), wit());
                            }
                        }
                        Err(x) => {
                            if e.early_sure {
                                ctx.violation("timely-packet-rejected", &format!("{}: {}", e.s.desc(), x), wit());
                            }
                        }
                        Ok(None) => {
                            if last && e.early_sure {
                                ctx.violation("timely-message-lost", &format!("{}: all packets arrived within {} ms (limit {} ms), message not delivered", e.s.desc(), max_age.as_millis(), ttl.as_millis()), wit());
                            }
                        }
                    }
                }
            }
        }
    }
    for e in exps.iter_mut() {
        ctx.eval();
        if e.late_sure {
            ctx.count("late_cases", 1);
        } else if e.early_sure {
            ctx.count("timely_cases", 1);
        } else {
            ctx.count("unjudged_cases", 1);
        }
        ctx.distinct(&(e.s.desc(), e.cuts.clone(), e.gaps.clone(), e.pk.len()));
        // same message sent afresh after expiry must get through
        let (_, mut out) = e.s.end(ttl);
        let mut ok = false;
        let t0 = Instant::now();
        for b in out(&e.msg).unwrap_or_default() {
            if let Ok(Some(d)) = (e.inb)(&b) {
                ok = d == e.msg;
            }
        }
        if !ok && t0.elapsed() < ttl / 2 {
            ctx.violation("fresh-message-lost", &format!("{}: a complete message after an expiry was not delivered", e.s.desc()), json!({"batch": batch}));
        }
    }
}
