//! The simulated deployment: provers, verifiers and an adversary exchanging statements and proofs
//! over a faulty network, each with its own thread pool (or sharing the process-wide one), durable
//! storage and restarts.
use crate::ctx::*;
use crate::digests::Shared;
use crate::el::Alt;
use crate::fam::*;
use crate::plan::{num, word, Plan};
use crate::reg;
use crate::rng::{hash_bytes, mix, SRng};
use crate::simrt::{self, quiet, SimCrash};
use crate::toy::GLITCH;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    Refuse,
    Undecodable,
    Panic(String),
}

/// Runs library code; a panic becomes an error, an injected abort passes through.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(|| simrt::fine(f))) {
        Ok(x) => Ok(x),
        Err(e) if e.is::<SimCrash>() => resume_unwind(e),
        Err(_) => Err(ctx().panic.clone()),
    }
}
/// The same with an ordinary error inside.
pub fn flat<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match guarded(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Where a node's calls into the library run.
#[derive(Clone)]
pub enum Pool {
    /// On the node's own thread; parallel parts go to the process-wide pool.
    Direct,
    /// On a worker thread of the process-wide pool.
    Inside,
    /// On a worker thread of a pool of its own, or of one shared with others.
    Own(Arc<rayon::ThreadPool>),
}
static POOLS: Shared<BTreeMap<u64, Arc<rayon::ThreadPool>>> = Shared::new(BTreeMap::new());
impl Pool {
    pub fn of(code: u64) -> Pool {
        match code {
            0 => Pool::Direct,
            1 => Pool::Inside,
            // A pool that several callers share: 20 + its number of workers
            k if k >= 20 => {
                if let Some(p) = POOLS.get().get(&k) {
                    return Pool::Own(p.clone());
                }
                let p = Pool::threads(k as usize - 20);
                Pool::Own(POOLS.get().entry(k).or_insert(p).clone())
            }
            k => Pool::Own(Pool::threads(k as usize - 1)),
        }
    }
    fn threads(n: usize) -> Arc<rayon::ThreadPool> {
        Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n.clamp(1, 8)).build().expect("pool"))
    }
    pub fn run<T: Send>(&self, f: impl FnOnce() -> T + Send) -> T {
        match self {
            Pool::Direct => f(),
            Pool::Inside => {
                let mut out = None;
                rayon::scope(|s| s.spawn(|_| out = Some(f())));
                out.expect("scope")
            }
            Pool::Own(p) => p.install(f),
        }
    }
}

pub fn verdict(f: &dyn Fam, vkey: &[u8], stmt: &[u8], proof: &[u8]) -> Verdict {
    if !f.decodable(proof) {
        return Verdict::Undecodable;
    }
    match guarded(|| f.verify(vkey, stmt, proof)) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(_)) => Verdict::Refuse,
        Err(p) => Verdict::Panic(p),
    }
}

#[derive(Clone)]
pub struct Sess {
    pub fam: &'static dyn Fam,
    pub size: Size,
    pub seed: u64,
    pub shape: usize,
    pub key: Vec<u8>,
    pub vkey: Vec<u8>,
    pub wit: Vec<u8>,
    pub stmt: Vec<u8>,
    pub honest: Vec<u8>,
}
impl Sess {
    pub fn label(&self) -> String {
        format!("{} size {},{} ({})", self.fam.name(), self.size.a, self.size.b, SHAPES[self.shape % SHAPES.len()])
    }
    /// `session <family> <a> <b> <seed> <shape>`
    pub fn prepare(o: &[String], key_of: Option<&Sess>, seed_shift: u64) -> Result<Sess, String> {
        let fam = reg::get(word(o, 1)).ok_or("harness: unknown family")?;
        let size = Size { a: num(o, 2) as usize, b: num(o, 3) as usize };
        let (seed, shape) = (num(o, 4) + seed_shift, num(o, 5) as usize % SHAPES.len());
        let key = match key_of {
            Some(s) => s.key.clone(),
            None => flat(|| fam.setup(mix(&[seed, 1]), size)).map_err(|e| format!("setup: {e}"))?,
        };
        let vkey = flat(|| Ok(fam.vkey(&key))).map_err(|e| format!("verification key: {e}"))?;
        let wit = fam.witness(&key, mix(&[seed, 2]), size, shape);
        let stmt = flat(|| fam.state(&key, &wit)).map_err(|e| format!("statement: {e}"))?;
        Ok(Sess { fam, size, seed, shape, key, vkey, wit, stmt, honest: vec![] })
    }
    pub fn prove_now(&mut self) -> Result<(), String> {
        self.honest = flat(|| self.fam.prove(&self.key, &self.wit, &self.stmt)).map_err(|e| format!("prove: {e}"))?;
        Ok(())
    }
}

fn tamper_of(o: &[String], s: &Sess) -> Option<Tamper> {
    let parts = |w: &str| match w {
        "stmt" => Some(Part::Stmt),
        "vkey" => Some(Part::VKey),
        "proof" => Some(Part::Proof),
        _ => None,
    };
    let part = parts(word(o, 3))?;
    let bytes = match part {
        Part::VKey => &s.vkey,
        Part::Stmt => &s.stmt,
        Part::Proof => &s.honest,
    };
    let (n, seqs) = s.fam.shape_of(part, bytes);
    let idx = |i: u64| if n == 0 { 0 } else { i as usize % n };
    Some(match word(o, 2) {
        "alter" => Tamper::Alter { part, idx: idx(num(o, 4)), alt: Alt::from_code(num(o, 5) as usize, num(o, 6)) },
        "two" => Tamper::Two {
            part,
            idx: (idx(num(o, 4)), idx(num(o, 5))),
            // Unrelated random changes: related ones (twice both, zero both) can make another true statement.
            alt: (unrelated(num(o, 6), num(o, 7), 1), unrelated(num(o, 8), num(o, 9), 2)),
        },
        "reshape" => {
            if seqs == 0 {
                return None;
            }
            Tamper::Reshape { part, which: num(o, 4) as usize % seqs, op: num(o, 5) as usize, arg: num(o, 6) as usize }
        }
        "swap" => Tamper::Swap { part, idx: idx(num(o, 4)), n: num(o, 5) as usize },
        "trade" => {
            let to = parts(word(o, 6))?;
            Tamper::Trade { part: (part, to), idx: idx(num(o, 4)), n: num(o, 5) as usize, amount: num(o, 7), weight: num(o, 8) as usize }
        }
        "cross" => Tamper::Cross { idx: idx(num(o, 4)), n: num(o, 5) as usize, to_stmt: num(o, 6) % 2 == 1 },
        "wipe" => {
            // Part is the proof; a range from the end or anywhere, and perhaps one statement element.
            let len = num(o, 5) as usize;
            let lo = if num(o, 4) == 0 { n.saturating_sub(len) } else { idx(num(o, 4)) };
            let ns = s.fam.shape_of(Part::Stmt, &s.stmt).0;
            let st = if num(o, 6) == 0 || ns == 0 { None } else { Some(num(o, 6) as usize % ns) };
            Tamper::Wipe { stmt: st, lo, hi: if len == 0 { n } else { lo + len } }
        }
        "claim" => {
            // claim <claim> <how> <alt> <value> <lo> <len>
            let a = Alt::from_code(num(o, 6) as usize, num(o, 7));
            let np = s.fam.shape_of(Part::Proof, &s.honest).0;
            let (lo, len) = (if np == 0 { 0 } else { num(o, 8) as usize % np }, num(o, 9) as usize);
            let how = match num(o, 5) % 3 {
                0 => ClaimHow::Alone(a),
                1 => ClaimHow::Wiped(a, if len == 0 { 0 } else { lo }, if len == 0 { np } else { lo + len }),
                _ => ClaimHow::Traded { n: lo, amount: num(o, 7) % 1000, weight: len },
            };
            Tamper::Claim { n: num(o, 4) as usize, how }
        }
        "splice" => {
            let (lo, hi) = (idx(num(o, 4)), num(o, 5) as usize);
            Tamper::Splice { part, lo, hi: if hi == 0 { n } else { lo + hi } }
        }
        _ => return None,
    })
}

fn unrelated(code: u64, x: u64, pos: u64) -> Alt {
    match code % 2 {
        0 => Alt::Add(mix(&[x, pos]) | 1),
        _ => Alt::Rand(mix(&[x, pos])),
    }
}

/// Carries out `forge <session> ...` against prepared sessions.
pub fn forge(o: &[String], s: &Sess, foreign: &mut Option<Option<Sess>>, so: &[String]) -> Option<Forged> {
    let f = s.fam;
    match word(o, 2) {
        "bytes" => {
            let mut b = s.honest.clone();
            let (x, y) = (num(o, 4) as usize, num(o, 5));
            if b.is_empty() {
                return None;
            }
            let i = x % b.len();
            let what = match num(o, 3) % 8 {
                0 => {
                    b.truncate(i);
                    "truncated"
                }
                1 => {
                    b.extend(std::iter::repeat(y as u8).take(1 + x % 300));
                    "extended"
                }
                2 => {
                    b[i] ^= 1 << (y % 8);
                    "bit flipped"
                }
                3 => {
                    // A length that announces more than there is memory for.
                    let i = i & !7;
                    for (k, c) in b[i..].iter_mut().take(8).enumerate() {
                        *c = if k < 7 { 0xff } else { 0x0f };
                    }
                    "huge length"
                }
                4 => {
                    for c in b[i..].iter_mut().take(8) {
                        *c = 0xff;
                    }
                    "bytes set"
                }
                5 => {
                    for c in b[i..].iter_mut().take(1 + (y % 64) as usize) {
                        *c = 0;
                    }
                    "bytes cleared"
                }
                6 => {
                    b.drain(i..(i + 1 + (y % 40) as usize).min(s.honest.len()));
                    "bytes removed"
                }
                _ => {
                    let mut r = SRng::new(y);
                    b = (0..x % 2000).map(|_| r.u64() as u8).collect();
                    "random bytes"
                }
            };
            if b == s.honest {
                return None;
            }
            Some(Forged { vkey: s.vkey.clone(), stmt: s.stmt.clone(), proof: b, what: format!("proof encoding: {what}"), finding: None })
        }
        "attack" => {
            let kind = word(o, 3);
            // An adversary's own computation may fail; then there is no attack.
            flat(|| Ok(f.attack(kind, num(o, 4), s.size, &s.key, &s.wit, &s.stmt, &s.honest))).ok().flatten()
        }
        "deviate" => {
            let fo = |proof: Vec<u8>, what: String| {
                if f.canon(s.size, &proof) == f.canon(s.size, &s.honest) {
                    None
                } else {
                    Some(Forged { vkey: s.vkey.clone(), stmt: s.stmt.clone(), proof, what, finding: None })
                }
            };
            match word(o, 3) {
                "witness" => {
                    let n = f.wit_len(&s.wit);
                    let w = f.alter_wit(&s.wit, if n == 0 { 0 } else { num(o, 4) as usize % n }, &Alt::from_code(num(o, 5) as usize, num(o, 6)))?;
                    let p = flat(|| f.prove_unchecked(&s.key, &w, &s.stmt)).ok()?;
                    fo(p, "prover used another witness element".into())
                }
                "key" => {
                    let n = f.key_len(&s.key);
                    let k = f.alter_key(&s.key, if n == 0 { 0 } else { num(o, 4) as usize % n }, &Alt::from_code(num(o, 5) as usize, num(o, 6)))?;
                    let p = flat(|| f.prove_unchecked(&k, &s.wit, &s.stmt)).ok()?;
                    fo(p, "prover used another key element".into())
                }
                "glitch" => {
                    let before = simrt::ops();
                    flat(|| f.prove_unchecked(&s.key, &s.wit, &s.stmt)).ok()?;
                    let n = (simrt::ops() - before).max(1);
                    *GLITCH.get() = 1 + num(o, 4) % n;
                    let p = flat(|| f.prove_unchecked(&s.key, &s.wit, &s.stmt));
                    let fired = *GLITCH.get() == 0;
                    *GLITCH.get() = 0;
                    if fired {
                        fault("hardware-glitch");
                    }
                    fo(p.ok()?, format!("prover's group operation {} gave a wrong result", 1 + num(o, 4) % n))
                }
                _ => None,
            }
        }
        _ => {
            let t = tamper_of(o, s)?;
            let need = matches!(&t, Tamper::Splice { .. }) || word(o, 5) == "7" || word(o, 6) == "7" || word(o, 8) == "7";
            if need && foreign.is_none() {
                // Another session: for the key part under another key, else under the same one.
                let mut so = so.to_vec();
                if so.len() > 5 {
                    so[5] = "0".into();
                }
                *foreign = Some(Sess::prepare(&so, Some(s), 7_777).ok().and_then(|mut x| {
                    x.prove_now().ok()?;
                    let other = flat(|| x.fam.setup(mix(&[x.seed, 99]), x.size)).ok()?;
                    x.vkey = flat(|| Ok(x.fam.vkey(&other))).ok()?;
                    Some(x)
                }));
            }
            let none = vec![];
            let fb = match foreign.as_ref().and_then(|x| x.as_ref()) {
                Some(x) => match &t {
                    Tamper::Alter { part, .. } | Tamper::Two { part, .. } | Tamper::Reshape { part, .. } | Tamper::Splice { part, .. } => match part {
                        Part::VKey => &x.vkey,
                        Part::Stmt => &x.stmt,
                        Part::Proof => &x.honest,
                    },
                    _ => &none,
                },
                None => &none,
            };
            let out = flat(|| Ok(f.tamper(s.size, &t, &s.vkey, &s.stmt, &s.honest, fb))).ok().flatten()?;
            if let Some(Some(x)) = foreign.as_ref() {
                // Two proofs for one and the same statement are both right.
                if x.stmt == s.stmt && f.canon(s.size, &out.proof) == f.canon(s.size, &x.honest) {
                    return None;
                }
            }
            Some(out)
        }
    }
}

#[derive(Clone)]
pub enum Kind {
    Honest,
    Forged { finding: Option<&'static str> },
}
#[derive(Clone)]
pub struct Item {
    pub sess: usize,
    pub kind: Kind,
    pub vkey: Vec<u8>,
    pub stmt: Vec<u8>,
    /// Empty until proved.
    pub proof: Vec<u8>,
    pub what: String,
}

#[derive(Clone)]
struct Msg {
    from: usize,
    item: usize,
    /// None: acknowledgement.
    data: Option<Arc<(Vec<u8>, Vec<u8>, Vec<u8>)>>,
}
struct NodeSt {
    name: String,
    pool: Pool,
    inbox: Vec<(u64, u64, Msg)>,
    disk: BTreeMap<String, Vec<u8>>,
    writes: u64,
    skew: u64,
    crashes: u64,
    done: bool,
}
/// What the run checks on the fly.
#[derive(Clone, Copy, PartialEq)]
pub struct Rules {
    /// Honest messages that arrive intact must be accepted, in time.
    pub complete: bool,
    /// Forged messages must not be accepted.
    pub sound: bool,
    /// No message may crash a verifier.
    pub robust: bool,
}
struct World {
    sess: Vec<Sess>,
    items: Vec<Item>,
    nodes: Vec<NodeSt>,
    senders: Vec<(usize, Vec<usize>)>,
    verifiers: Vec<usize>,
    sent: u64,
    net: BTreeMap<u64, (String, u64)>,
    windows: Vec<(String, usize, u64, u64)>,
    torn: BTreeMap<(usize, u64), (String, u64)>,
    start: u64,
    seed: u64,
    rules: Rules,
    accepted: BTreeSet<(usize, usize)>,
    stop: bool,
}
static WORLD: Shared<Option<World>> = Shared::new(None);
fn w() -> &'static mut World {
    WORLD.get().as_mut().expect("world")
}

const MS: u64 = 1_000_000;
fn ms_since() -> u64 {
    (simrt::now() - w().start) / MS
}

fn send(from: usize, to: usize, m: Msg) {
    quiet(|| {
        let world = w();
        let n = world.sent;
        world.sent += 1;
        let mut r = SRng::new(mix(&[world.seed, 0x6e7, n]));
        let mut at = simrt::now() + MS / 5 + r.below(2_000_000) as u64;
        let t = ms_since();
        let kind = if m.data.is_some() { "data" } else { "ack" };
        let cut = world.windows.iter().any(|(k, node, a, b)| k == "partition" && (*node == from || *node == to) && t >= *a && t < *b);
        let mut m = m;
        let mut copies = 1;
        if cut {
            fault("partition");
            copies = 0;
        } else if let Some((f, arg)) = world.net.get(&n).cloned() {
            match f.as_str() {
                "drop" => copies = 0,
                "dup" => copies = 2 + arg % 2,
                "delay" => at += (1 + arg % 3000) * MS,
                "flip" => {
                    if let Some(d) = &m.data {
                        let mut p = d.2.clone();
                        if !p.is_empty() {
                            let bit = (arg as usize) % (p.len() * 8);
                            p[bit / 8] ^= 1 << (bit % 8);
                        }
                        m.data = Some(Arc::new((d.0.clone(), d.1.clone(), p)));
                    } else {
                        copies = 0;
                    }
                }
                _ => {}
            }
            fault(&format!("message-{f}"));
        }
        event(&format!("{} -> {} {} item {} #{}{}", world.nodes[from].name, world.nodes[to].name, kind, m.item, n, if copies == 1 { "".into() } else { format!(" x{copies}") }));
        for c in 0..copies {
            let extra = c * (1 + r.below(80) as u64) * MS;
            world.nodes[to].inbox.push((at + extra, n * 4 + c, m.clone()));
        }
        simrt::wake(to as u32);
    })
}
fn recv(me: usize, until: u64) -> Option<Msg> {
    loop {
        let now = simrt::now();
        let stall = {
            let t = ms_since();
            w().windows.iter().filter(|(k, n, a, b)| k == "stall" && *n == me && t >= *a && t < *b).map(|x| x.3 - t).max()
        };
        if let Some(d) = stall {
            fault("stall");
            simrt::sleep(d * MS);
            continue;
        }
        let inbox = &mut w().nodes[me].inbox;
        let next = inbox.iter().enumerate().min_by_key(|(_, x)| (x.0, x.1)).map(|(i, x)| (i, x.0));
        match next {
            Some((i, at)) if at <= now => return Some(inbox.remove(i).2),
            _ => {}
        }
        if now >= until {
            return None;
        }
        let d = next.map(|x| x.1).unwrap_or(u64::MAX - 1).min(until);
        simrt::wait(me as u32, Some(d));
    }
}

/// Durable storage of a node: a value is framed with its length and a checksum.
fn store(me: usize, name: &str, val: &[u8]) -> bool {
    let n = &mut w().nodes[me];
    let k = n.writes;
    n.writes += 1;
    let mut frame = (val.len() as u64).to_le_bytes().to_vec();
    frame.extend(hash_bytes(val).to_le_bytes());
    frame.extend_from_slice(val);
    match w().torn.get(&(me, k)).cloned() {
        Some((f, arg)) if f == "torn" => {
            // Power is lost during the write: only a prefix survives.
            let keep = arg as usize % (frame.len() + 1);
            frame.truncate(keep);
            w().nodes[me].disk.insert(name.into(), frame);
            fault("torn-write");
            event(&format!("{} torn write of {name} ({keep} bytes)", w().nodes[me].name));
            resume_unwind(Box::new(SimCrash));
        }
        Some((f, _)) if f == "lost" => {
            // Acknowledged but never made durable; noticed only after a crash.
            fault("lost-write");
            return true;
        }
        Some((f, _)) if f == "full" => {
            fault("disk-full");
            return false;
        }
        Some((f, arg)) if f == "rot" => {
            let i = arg as usize % frame.len();
            frame[i] ^= 0x10;
            fault("bit-rot");
        }
        _ => {}
    }
    w().nodes[me].disk.insert(name.into(), frame);
    true
}
fn load(me: usize, name: &str) -> Option<Vec<u8>> {
    let f = w().nodes[me].disk.get(name)?;
    let len = u64::from_le_bytes(f.get(..8)?.try_into().unwrap());
    let sum = u64::from_le_bytes(f.get(8..16)?.try_into().unwrap());
    let v = f.get(16..)?;
    if v.len() as u64 != len || hash_bytes(v) != sum {
        probe("damaged-file-detected");
        return None;
    }
    Some(v.to_vec())
}

fn sender(me: usize, items: &[usize]) {
    let mut pending: Vec<(usize, usize, u64, u64)> = vec![];
    for &i in items {
        let it = &w().items[i];
        let proof = if !it.proof.is_empty() {
            it.proof.clone()
        } else {
            match load(me, &format!("proof{i}")) {
                Some(p) => {
                    probe("proof-from-disk");
                    p
                }
                None => {
                    let s = w().sess[it.sess].clone();
                    let pool = w().nodes[me].pool.clone();
                    event(&format!("{} proves item {i}", w().nodes[me].name));
                    match pool.run(|| flat(|| s.fam.prove(&s.key, &s.wit, &s.stmt))) {
                        Ok(p) => {
                            let first = &mut w().sess[it.sess].honest;
                            if first.is_empty() {
                                *first = p.clone();
                            } else if *first != p {
                                violation("proof-not-deterministic", format!("{}: the same prover input gave two different proofs", s.label()));
                            }
                            if !store(me, &format!("proof{i}"), &p) {
                                probe("unsaved-proof");
                            }
                            p
                        }
                        Err(e) => {
                            violation("prove-failed", format!("{}: honest prover failed: {e}", s.label()));
                            continue;
                        }
                    }
                }
            }
        };
        let it = &w().items[i];
        let d = Arc::new((it.vkey.clone(), it.stmt.clone(), proof));
        for v in w().verifiers.clone() {
            send(me, v, Msg { from: me, item: i, data: Some(d.clone()) });
            pending.push((i, v, simrt::now() + 50 * MS * w().nodes[me].skew / 100, 50));
        }
        // Payloads are kept for retransmission.
        w().nodes[me].disk.entry(format!("volatile{i}")).or_insert_with(|| d.2.clone());
    }
    while !pending.is_empty() {
        let until = pending.iter().map(|p| p.2).min().unwrap();
        match recv(me, until) {
            Some(m) if m.data.is_none() => pending.retain(|p| !(p.0 == m.item && p.1 == m.from)),
            Some(_) => {}
            None => {
                let now = simrt::now();
                for k in 0..pending.len() {
                    if pending[k].2 <= now {
                        let back = (pending[k].3 * 2).min(8_000);
                        pending[k].3 = back;
                        pending[k].2 = now + back * MS * w().nodes[me].skew / 100;
                        let it = &w().items[pending[k].0];
                        let p = w().nodes[me].disk.get(&format!("volatile{}", pending[k].0)).cloned().unwrap_or_default();
                        probe("retransmission");
                        send(me, pending[k].1, Msg { from: me, item: pending[k].0, data: Some(Arc::new((it.vkey.clone(), it.stmt.clone(), p))) });
                    }
                }
            }
        }
    }
}

fn verifier(me: usize) {
    while !w().stop {
        let Some(m) = recv(me, simrt::now() + 3_600_000 * MS) else { continue };
        let Some(d) = m.data.clone() else { continue };
        let it = w().items[m.item].clone();
        let s = w().sess[it.sess].clone();
        let honest = matches!(it.kind, Kind::Honest);
        // Is this, byte for byte, what was sent?
        let intact = if honest { d.2 == s.honest } else { d.2 == it.proof };
        let name = format!("verdict{}-{:x}", m.item, hash_bytes(&d.2));
        let before = load(me, &name);
        if before.as_ref().map_or(false, |b| b.len() > 1) {
            // Answered twice already: acknowledge again without recomputing.
            probe("cached-verdict");
            send(me, m.from, Msg { from: me, item: m.item, data: None });
            continue;
        }
        let pool = w().nodes[me].pool.clone();
        let v = pool.run(|| verdict(s.fam, &d.0, &d.1, &d.2));
        let code = match &v {
            Verdict::Accept => b'A',
            Verdict::Reject => b'R',
            Verdict::Refuse => b'E',
            Verdict::Undecodable => b'U',
            Verdict::Panic(_) => b'P',
        };
        event(&format!("{} item {} ({}): {:?}", w().nodes[me].name, m.item, it.what, v));
        probe(&format!("verdict-{}{}", if honest { if intact { "honest-" } else { "damaged-" } } else { "forged-" }, code as char));
        let mut rec = before.clone().unwrap_or_default();
        if rec.first().map_or(false, |b| *b != code) {
            violation("verdict-changed", format!("{}: item {} ({}) was answered {} before and {} now", s.label(), m.item, it.what, rec[0] as char, code as char));
        }
        rec.push(code);
        store(me, &name, &rec);
        let rules = w().rules;
        let mut ack = true;
        match (&it.kind, intact) {
            (Kind::Honest, true) => {
                if v == Verdict::Accept {
                    w().accepted.insert((m.item, me));
                } else {
                    violation("honest-rejected", format!("{}: an honest proof that arrived intact was answered {v:?}", s.label()));
                }
            }
            (Kind::Honest, false) => {
                if v == Verdict::Accept && s.fam.canon(s.size, &d.2) != s.fam.canon(s.size, &s.honest) {
                    violation("forged-accepted", format!("{}: a proof damaged in transport was accepted", s.label()));
                }
                if let Verdict::Panic(p) = &v {
                    violation("forged-panic", format!("{}: a proof damaged in transport crashed the verifier: {p}", s.label()));
                }
                // Damaged only in what the verifier may ignore: the statement was served.
                ack = v == Verdict::Accept;
                if ack {
                    w().accepted.insert((m.item, me));
                }
            }
            (Kind::Forged { finding }, true) => {
                match &v {
                    Verdict::Accept if rules.sound => match finding {
                        Some(f) => known(f, format!("{}: {}", s.fam.name(), it.what)),
                        None => violation("forged-accepted", format!("{}: {} was accepted", s.label(), it.what)),
                    },
                    Verdict::Panic(p) => violation("forged-panic", format!("{}: {} crashed the verifier: {p}", s.label(), it.what)),
                    _ => {}
                }
                w().accepted.insert((m.item, me));
            }
            // A forged message that was damaged on the way says nothing.
            (Kind::Forged { .. }, false) => {
                if let Verdict::Panic(p) = &v {
                    violation("forged-panic", format!("{}: damaged message crashed the verifier: {p}", s.label()));
                }
                w().accepted.insert((m.item, me));
            }
        }
        if ack {
            send(me, m.from, Msg { from: me, item: m.item, data: None });
        }
    }
}

/// Runs a node until its work is done, restarting it after every crash.
fn node_main(me: usize, body: impl Fn(usize)) {
    simrt::harness_thread();
    simrt::set_node(me as u32);
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| body(me)));
        match r {
            Ok(()) => break,
            Err(e) if e.is::<SimCrash>() => {
                let n = &mut w().nodes[me];
                n.crashes += 1;
                let lost = n.inbox.len() as u64;
                n.inbox.clear();
                // Volatile state is gone.
                n.disk.retain(|k, _| !k.starts_with("volatile"));
                let name = n.name.clone();
                event(&format!("{name} crashed ({lost} messages lost), restarts"));
                fault("node-restart");
                simrt::sleep((20 + 30 * (n.crashes % 4)) * MS);
            }
            Err(_) => {
                violation("node-panic", format!("{}: {}", w().nodes[me].name, ctx().panic));
                break;
            }
        }
    }
    w().nodes[me].done = true;
    simrt::wake(ROOT);
}
const ROOT: u32 = 4096;

type Faults = (BTreeMap<u64, (String, u64)>, Vec<(String, usize, u64, u64)>, BTreeMap<(usize, u64), (String, u64)>, Vec<u64>);
fn faults_of(p: &Plan, all: usize) -> Faults {
    let mut net = BTreeMap::new();
    for o in p.ops_named("net") {
        net.insert(num(o, 2), (word(o, 1).to_string(), num(o, 3)));
    }
    let mut windows = vec![];
    for o in p.ops_named("window") {
        let at = num(o, 3) % 60_000;
        windows.push((word(o, 1).to_string(), num(o, 2) as usize % all, at, at + 1 + num(o, 4) % 20_000));
    }
    let mut torn = BTreeMap::new();
    for o in p.ops_named("disk") {
        torn.insert((num(o, 2) as usize % all, num(o, 3)), (word(o, 1).to_string(), num(o, 4)));
    }
    (net, windows, torn, p.ops_named("crash").map(|o| num(o, 1)).collect())
}

pub fn run(p: &Plan, rules: Rules) {
    // --- Preparation: keys, witnesses, statements, forgeries. No faults yet.
    let mut sess = vec![];
    let mut items: Vec<Item> = vec![];
    let mut from_mallory = vec![];
    let sops: Vec<_> = p.ops_named("session").cloned().collect();
    let forging = p.find("forge").is_some();
    for (i, o) in sops.iter().enumerate() {
        let key_of = o.get(6).and_then(|k| k.parse::<usize>().ok()).and_then(|k| sess.get(k).cloned());
        match Sess::prepare(o, key_of.as_ref(), 0) {
            Ok(mut s) => {
                if forging {
                    if let Err(e) = s.prove_now() {
                        if rules.complete {
                            violation("prove-failed", format!("{}: honest prover failed: {e}", s.label()));
                        }
                        void(format!("{}: {e}", s.label()));
                        return;
                    }
                }
                items.push(Item { sess: i, kind: Kind::Honest, vkey: s.vkey.clone(), stmt: s.stmt.clone(), proof: vec![], what: "honest".into() });
                sess.push(s);
            }
            Err(e) if e.contains("harness:") => panic!("{e}"),
            Err(e) => {
                if rules.complete {
                    violation("setup-failed", format!("{} size {},{}: {e}", word(o, 1), num(o, 2), num(o, 3)));
                }
                void(e);
                return;
            }
        }
    }
    if sess.is_empty() {
        void("no session");
        return;
    }
    let mut foreign: Vec<Option<Option<Sess>>> = sess.iter().map(|_| None).collect();
    for o in p.ops_named("forge") {
        let k = num(o, 1) as usize % sess.len();
        // Among zeros there are other right proofs: a list of a zero and an empty list mean the same.
        let zeros = special(sess[k].shape) == Some(ark_bls12_381::Fr::from(0u64));
        let meaningless = if word(o, 2) == "claim" { false } else { !generic(sess[k].shape) };
        if rules.sound && (meaningless || sess[k].fam.special_key(sess[k].size) || (zeros && word(o, 2) == "reshape")) {
            probe("forge-void");
            continue;
        }
        match forge(o, &sess[k], &mut foreign[k], &sops[k]) {
            Some(f) => {
                probe(&format!("forge-{}", if word(o, 2) == "attack" || word(o, 2) == "deviate" { format!("{}-{}", word(o, 2), word(o, 3)) } else { format!("{}-{}", word(o, 2), word(o, 3)) }));
                from_mallory.push(items.len());
                items.push(Item { sess: k, kind: Kind::Forged { finding: f.finding }, vkey: f.vkey, stmt: f.stmt, proof: f.proof, what: f.what });
            }
            None => probe("forge-void"),
        }
    }
    // --- Nodes.
    let mut nodes = vec![];
    let mut node = |name: String, pool: u64, skew: u64| {
        nodes.push(NodeSt { name, pool: Pool::of(pool), inbox: vec![], disk: BTreeMap::new(), writes: 0, skew: if skew == 0 { 100 } else { 20 + skew % 400 }, crashes: 0, done: false });
        nodes.len() - 1
    };
    let mut provers = vec![];
    for o in p.ops_named("prover") {
        provers.push(node(format!("prover{}", provers.len()), num(o, 1), num(o, 2)));
    }
    if provers.is_empty() {
        provers.push(node("prover0".into(), 0, 0));
    }
    let mut verifiers = vec![];
    for o in p.ops_named("verifier") {
        verifiers.push(node(format!("verifier{}", verifiers.len()), num(o, 1), num(o, 2)));
    }
    if verifiers.is_empty() {
        verifiers.push(node("verifier0".into(), 0, 0));
    }
    let mut senders: Vec<(usize, Vec<usize>)> = provers.iter().map(|p| (*p, vec![])).collect();
    let n_honest = sess.len();
    for i in 0..n_honest {
        let k = i % senders.len();
        senders[k].1.push(i);
    }
    if !from_mallory.is_empty() {
        let m = node("mallory".into(), 0, 0);
        senders.push((m, from_mallory));
    }
    let (net, windows, torn, crashes) = faults_of(p, nodes.len());
    *WORLD.get() = Some(World {
        sess, items, nodes, senders, verifiers, sent: 0, net, windows, torn, start: simrt::now(), seed: p.seed, rules, accepted: BTreeSet::new(), stop: false,
    });
    event("nodes start");
    simrt::arm_crashes(&crashes);
    let mut handles = vec![];
    for (n, its) in w().senders.clone() {
        handles.push(std::thread::spawn(move || node_main(n, |me| sender(me, &its))));
    }
    for n in w().verifiers.clone() {
        handles.push(std::thread::spawn(move || node_main(n, verifier)));
    }
    // --- Faults end by 80 s of simulated time; everything must be served soon after.
    let deadline = simrt::now() + 600_000 * MS;
    let done = || w().senders.iter().all(|s| w().nodes[s.0].done);
    while !done() && simrt::now() < deadline {
        simrt::wait(ROOT, Some(deadline));
    }
    simrt::disarm_crashes();
    if !done() && rules.complete {
        violation("not-served", "some honest proof was not accepted by every verifier within the time allowed after the last fault");
    }
    if rules.complete {
        for i in 0..n_honest {
            for v in &w().verifiers {
                if done() && ctx().o.violations.is_empty() && !w().accepted.contains(&(i, *v)) {
                    violation("not-served", format!("{}: never accepted by {}", w().sess[w().items[i].sess].label(), w().nodes[*v].name));
                }
            }
        }
    }
    for n in &w().nodes {
        probe_n("node-crashes", n.crashes);
    }
    probe_n("messages", w().sent);
    w().stop = true;
    std::mem::forget(handles);
    let _ = rules.robust;
}

/// Requests a prover must refuse: an error (or, where documented, an assertion), never a proof.
pub fn refusals(p: &Plan) {
    for so in p.ops_named("session") {
        let mut s = match Sess::prepare(so, None, 0) {
            Ok(s) => s,
            Err(e) => {
                violation("setup-failed", format!("{}: {e}", word(so, 1)));
                return;
            }
        };
        if let Err(e) = s.prove_now() {
            violation("prove-failed", format!("{}: honest prover failed: {e}", s.label()));
            return;
        }
        for o in p.ops_named("refuse") {
            let (kind, seed) = (num(o, 2) as usize, num(o, 3));
            match guarded(|| s.fam.refusal(kind, seed, &s.key, &s.wit, &s.stmt)) {
                Ok(None) => probe("refusal-void"),
                Ok(Some((what, Ok(())))) => violation("refusal-accepted", format!("{}: the prover answered with a proof: {what}", s.label())),
                Ok(Some((what, Err(e)))) => {
                    event(&format!("{}: {what}: refused ({e})", s.label()));
                    probe(&format!("refused-{}", what))
                }
                Err(e) if s.fam.refuses_by_panic() => {
                    event(&format!("{}: refused by assertion ({e})", s.label()));
                    probe("refused-by-assertion")
                }
                Err(e) => violation("refusal-panic", format!("{}: the prover panicked instead of refusing: {e}", s.label())),
            }
        }
    }
}

// --------------------------------------------------------------- Commitments merged across nodes

static MERGE: Shared<Option<crate::compute::Merge>> = Shared::new(None);
static MERGED: Shared<Option<Vec<u8>>> = Shared::new(None);

fn framed(v: &[u8]) -> Vec<u8> {
    let mut f = hash_bytes(v).to_le_bytes().to_vec();
    f.extend_from_slice(v);
    f
}
fn unframed(f: &[u8]) -> Option<Vec<u8>> {
    let v = f.get(8..)?;
    if hash_bytes(v).to_le_bytes()[..] == f[..8] {
        Some(v.to_vec())
    } else {
        None
    }
}
/// Commits to its parts and sends them to the merger until they are acknowledged.
fn worker(me: usize, parts: &[usize]) {
    let m = MERGE.get().as_ref().unwrap();
    let mut pending: Vec<(usize, Vec<u8>, u64, u64)> = vec![];
    for &i in parts {
        let c = match load(me, &format!("part{i}")) {
            Some(c) => c,
            None => {
                let pool = w().nodes[me].pool.clone();
                match pool.run(|| (m.part)(i)) {
                    Ok(c) => {
                        store(me, &format!("part{i}"), &c);
                        c
                    }
                    Err(e) => {
                        violation("wrong-commitment", format!("{}: part {i}: {e}", m.label));
                        continue;
                    }
                }
            }
        };
        let f = framed(&c);
        send(me, 0, Msg { from: me, item: i, data: Some(Arc::new((vec![], vec![], f.clone()))) });
        pending.push((i, f, simrt::now() + 50 * MS * w().nodes[me].skew / 100, 50));
    }
    while !pending.is_empty() {
        let until = pending.iter().map(|p| p.2).min().unwrap();
        match recv(me, until) {
            Some(a) => pending.retain(|p| p.0 != a.item),
            None => {
                for p in pending.iter_mut() {
                    if p.2 <= simrt::now() {
                        p.3 = (p.3 * 2).min(8_000);
                        p.2 = simrt::now() + p.3 * MS * w().nodes[me].skew / 100;
                        probe("retransmission");
                        send(me, 0, Msg { from: me, item: p.0, data: Some(Arc::new((vec![], vec![], p.1.clone()))) });
                    }
                }
            }
        }
    }
}
/// Adds up what arrives, each part once, in the order of arrival. Its progress is durable: the
/// accumulated commitment and the set of parts in it are written together.
fn merger(me: usize) {
    let m = MERGE.get().as_ref().unwrap();
    // Two slots written in turn, so that a torn write never destroys what was acknowledged.
    let read = || -> (u64, Vec<bool>, Vec<u8>) {
        let slots: Vec<Vec<u8>> = (0..2).filter_map(|i| load(me, &format!("progress{i}"))).collect();
        match slots.iter().max_by_key(|b| u64::from_le_bytes(b[..8].try_into().unwrap())) {
            Some(b) => (u64::from_le_bytes(b[..8].try_into().unwrap()), b[8..8 + m.parts].iter().map(|x| *x != 0).collect(), b[8 + m.parts..].to_vec()),
            None => (0, vec![false; m.parts], vec![]),
        }
    };
    let (mut turn, mut seen, mut acc) = read();
    while seen.iter().any(|s| !s) {
        let Some(x) = recv(me, simrt::now() + 600_000 * MS) else { continue };
        let Some(c) = x.data.as_ref().and_then(|d| unframed(&d.2)) else {
            probe("damaged-message-detected");
            continue;
        };
        if !seen[x.item] {
            match (m.add)(if acc.is_empty() { None } else { Some(&acc) }, &c) {
                Ok(s) => acc = s,
                Err(e) => violation("wrong-commitment", format!("{}: merging part {}: {e}", m.label, x.item)),
            }
            seen[x.item] = true;
            let mut b = (turn + 1).to_le_bytes().to_vec();
            b.extend(seen.iter().map(|s| *s as u8));
            b.extend_from_slice(&acc);
            let stored = store(me, &format!("progress{}", (turn + 1) % 2), &b);
            let back = read();
            if !stored || back.1 != seen || back.2 != acc {
                // Not saved, lost or damaged on its way to the disk: not acknowledged.
                probe("write-verification-failed");
                (turn, seen, acc) = back;
                continue;
            }
            turn += 1;
        } else {
            probe("duplicate-part");
        }
        send(me, x.from, Msg { from: me, item: x.item, data: None });
    }
    *MERGED.get() = Some(acc);
    // Keeps acknowledging until every worker is done.
    while !w().stop {
        if let Some(x) = recv(me, simrt::now() + 600_000 * MS) {
            send(me, x.from, Msg { from: me, item: x.item, data: None });
        }
    }
}
pub fn merge(p: &Plan) {
    let Some(o) = p.find("merge") else {
        void("nothing to merge");
        return;
    };
    let m = crate::compute::merge_of(o);
    match &m.whole {
        Ok(w) if !w.is_empty() => {}
        Ok(_) => violation("wrong-commitment", format!("{}: the whole is not the expected commitment", m.label)),
        Err(e) => violation("wrong-commitment", format!("{}: {e}", m.label)),
    }
    let workers: Vec<_> = p.ops_named("worker").cloned().collect();
    let nw = workers.len().max(1);
    let mut nodes = vec![];
    for i in 0..=nw {
        let (pool, skew) = if i == 0 { (0, 0) } else { workers.get(i - 1).map(|o| (num(o, 1), num(o, 2))).unwrap_or((0, 0)) };
        nodes.push(NodeSt {
            name: if i == 0 { "merger".into() } else { format!("worker{}", i - 1) },
            pool: Pool::of(pool),
            inbox: vec![],
            disk: BTreeMap::new(),
            writes: 0,
            skew: if skew == 0 { 100 } else { 20 + skew % 400 },
            crashes: 0,
            done: false,
        });
    }
    let (net, windows, torn, crashes) = faults_of(p, nodes.len());
    let (parts, label, whole) = (m.parts, m.label.clone(), m.whole.clone().unwrap_or_default());
    *MERGE.get() = Some(m);
    let rules = Rules { complete: true, sound: false, robust: false };
    *WORLD.get() = Some(World {
        sess: vec![], items: vec![], nodes, senders: (1..=nw).map(|i| (i, vec![])).collect(), verifiers: vec![0], sent: 0, net, windows, torn, start: simrt::now(),
        seed: p.seed, rules, accepted: BTreeSet::new(), stop: false,
    });
    simrt::arm_crashes(&crashes);
    let mut handles = vec![];
    for i in 1..=nw {
        let mine: Vec<usize> = (0..parts).filter(|x| x % nw == i - 1).collect();
        handles.push(std::thread::spawn(move || node_main(i, |me| worker(me, &mine))));
    }
    handles.push(std::thread::spawn(move || node_main(0, merger)));
    let deadline = simrt::now() + 600_000 * MS;
    let done = || w().senders.iter().all(|s| w().nodes[s.0].done);
    while !done() && simrt::now() < deadline {
        simrt::wait(ROOT, Some(deadline));
    }
    simrt::disarm_crashes();
    for n in &w().nodes {
        probe_n("node-crashes", n.crashes);
    }
    w().stop = true;
    match (done(), MERGED.get()) {
        (true, Some(x)) => {
            probe("checked-merge");
            event("merged");
            if *x != whole {
                violation("wrong-commitment", format!("{label}: the merged commitment is not the commitment to the whole"));
            }
        }
        _ => violation("not-merged", format!("{label}: the parts were not merged in the time allowed after the last fault")),
    }
    std::mem::forget(handles);
}
