//! Scenarios about challenges (C12), streams (C13), determinism (C15) and setup (C16).
use crate::compute::{concurrently, restarting, split, Scheme};
use crate::ctx::*;
use crate::digests::{Shared, D32, HASH};
use crate::el::*;
use crate::fam::*;
use crate::fam_ipa::{SrsT, VSrsT};
use crate::plan::{num, word, Plan};
use crate::rng::{hash_bytes, mix, SRng};
use crate::simrt::{self, quiet, SimCrash};
use crate::toy::Toy;
use crate::with_scheme;
use crate::world::{flat, guarded, verdict, Pool, Sess, Verdict};
use ark_bls12_381::{Bls12_381 as Bls, Fr};
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment,
};
use ark_ec::{pairing::{Pairing, PairingOutput}, Group};
use ark_ff::{Field, Zero, BigInteger, PrimeField};
use ark_ip_proofs::{
    applications::{groth16_aggregation::setup_inner_product, poly_commit as pc, poly_commit::transparent as tpc},
    tipa::{TIPA, SRS},
};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use ark_sipp::rng::FiatShamirRng;
use ark_std::rand::{Error, RngCore};
use std::collections::BTreeSet;
use std::io;
use std::sync::Arc;

type Set = BTreeSet<Vec<u8>>;
fn set(v: Vec<Vec<u8>>) -> Set {
    v.into_iter().collect()
}

/// Sessions of a plan, prepared without faults; None (and the run is void) if that fails, which is
/// for another property's check to report.
fn sessions(p: &Plan, proved: bool) -> Option<Vec<Sess>> {
    let mut out: Vec<Sess> = vec![];
    for o in p.ops_named("session") {
        let key_of = o.get(6).and_then(|k| k.parse::<usize>().ok()).and_then(|k| out.get(k).cloned());
        match Sess::prepare(o, key_of.as_ref(), 0) {
            Ok(mut s) => {
                if proved {
                    if let Err(e) = s.prove_now() {
                        void(format!("{}: {e}", s.label()));
                        return None;
                    }
                }
                out.push(s)
            }
            Err(e) if e.contains("harness:") => panic!("{e}"),
            Err(e) => {
                void(e);
                return None;
            }
        }
    }
    if out.is_empty() {
        void("no session");
        return None;
    }
    Some(out)
}
fn crashes(p: &Plan) -> Vec<u64> {
    p.ops_named("crash").map(|o| num(o, 1)).collect()
}

// -------------------------------------------------------------------------------- C12: challenges

/// Alters a proof by exchanging or replacing elements.
fn touched(s: &Sess, o: &[String]) -> Option<(Vec<u8>, Vec<u8>, usize, String)> {
    let f = s.fam;
    let (n, _) = f.shape_of(Part::Proof, &s.honest);
    let (sn, _) = f.shape_of(Part::Stmt, &s.stmt);
    let alt = Alt::from_code(num(o, 4) as usize, num(o, 5));
    let none: Vec<u8> = vec![];
    match word(o, 2) {
        "stmt" if sn > 0 && f.after_statement(s.size) > 0 => {
            let i = num(o, 3) as usize % sn;
            let t = Tamper::Alter { part: Part::Stmt, idx: i, alt };
            let x = f.tamper(s.size, &t, &s.vkey, &s.stmt, &s.honest, &none)?;
            Some((x.stmt, x.proof, f.after_statement(s.size), format!("statement element {i}")))
        }
        "proof" if n > 0 => {
            let later = f.later_challenges(&s.honest);
            let i = num(o, 3) as usize % n;
            let t = Tamper::Alter { part: Part::Proof, idx: i, alt };
            let x = f.tamper(s.size, &t, &s.vkey, &s.stmt, &s.honest, &none)?;
            Some((x.stmt, x.proof, *later.get(i)?, format!("proof element {i}")))
        }
        "swap" if n > 1 => {
            // Two elements change places: every challenge after the earlier one changes.
            let later = f.later_challenges(&s.honest);
            let (i, x) = (num(o, 3) as usize % n, num(o, 5));
            let copy = |i: usize, c: u64, proof: &[u8]| f.tamper(s.size, &Tamper::Alter { part: Part::Proof, idx: i, alt: Alt::Copy(c as usize) }, &s.vkey, &s.stmt, proof, &none);
            let a = copy(i, x, &s.honest)?;
            // Which element was copied: the one that, written over by the old value, completes the exchange.
            let j = (0..n).find(|j| *j != i && f.leaf_eq(&a.proof, i, &s.honest, *j))?;
            let b = f.put_from(&a.proof, j, &s.honest, i)?;
            if b == s.honest {
                return None;
            }
            Some((s.stmt.clone(), b, (*later.get(i)?).max(*later.get(j)?), format!("proof elements {i} and {j} exchanged")))
        }
        _ => None,
    }
}

pub fn challenges(p: &Plan) {
    for o in p.ops_named("fs") {
        fs(o);
    }
    if p.find("session").is_none() {
        return;
    }
    let Some(ss) = sessions(p, false) else { return };
    let mut proved = vec![];
    let mut union = Set::new();
    for mut s in ss {
        let (r, mine) = with_log(|| s.prove_now());
        if let Err(e) = r {
            void(format!("{}: {e}", s.label()));
            return;
        }
        let (v, theirs) = with_log(|| verdict(s.fam, &s.vkey, &s.stmt, &s.honest));
        let (a, b) = (set(mine), set(theirs));
        event(&format!("{}: prover {} challenges, verifier {} ({v:?})", s.label(), a.len(), b.len()));
        if a != b {
            violation(
                "challenges-differ",
                format!("{}: prover and verifier derived different challenges ({} and {}, {} in common)", s.label(), a.len(), b.len(), a.intersection(&b).count()),
            );
        }
        probe("checked-agreement");
        union.extend(a);
        proved.push((s, b));
    }
    for o in p.ops_named("touch") {
        let (s, own) = &proved[num(o, 1) as usize % proved.len()];
        let Some((stmt, proof, k, what)) = quiet(|| touched(s, o)) else {
            probe("touch-void");
            continue;
        };
        if k == 0 {
            probe("touch-after-last-challenge");
            continue;
        }
        let (v, out) = with_log(|| verdict(s.fam, &s.vkey, &stmt, &proof));
        let kept = set(out).intersection(own).count();
        event(&format!("{}: {what} changed: {kept} of {} challenges as before ({v:?})", s.label(), own.len()));
        if kept + k > own.len() {
            violation("challenge-unbound", format!("{}: {what} changed, {k} of {} challenges come after it, but {kept} stayed the same", s.label(), own.len()));
        }
        probe(&format!("checked-{}", word(o, 2)));
    }
    // All of it again, at once, with aborted and restarted sessions: the same challenges.
    if p.find("again").is_some() {
        HASH.get().log.clear();
        HASH.get().logging = true;
        simrt::arm_crashes(&crashes(p));
        let jobs = proved
            .iter()
            .flat_map(|(s, _)| {
                let (x, y) = (s.clone(), s.clone());
                [
                    Box::new(move || drop(restarting(|| guarded(|| x.fam.prove(&x.key, &x.wit, &x.stmt))))) as Box<dyn FnOnce() + Send>,
                    Box::new(move || drop(restarting(|| guarded(|| y.fam.verify(&y.vkey, &y.stmt, &y.honest))))),
                ]
            })
            .collect();
        concurrently(jobs);
        simrt::disarm_crashes();
        HASH.get().logging = false;
        let all = set(answers(&std::mem::take(&mut HASH.get().log)));
        event(&format!("together: {} challenges, alone {}", all.len(), union.len()));
        probe("checked-together");
        if all != union {
            violation("challenges-differ", "sessions running at the same time, or aborted and restarted, derive other challenges than alone");
        }
    }
}

/// `fs <seed> <absorptions> <variants>`: the challenge generator of SIPP.
fn fs(o: &[String]) {
    if num(o, 1) % 2 == 0 {
        fs_on::<D32>(o)
    } else {
        fs_on::<blake2::Blake2s>(o)
    }
}
fn draw<D: digest::Digest<OutputSize = digest::generic_array::typenum::U32>>(g: &mut FiatShamirRng<D>, n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    g.fill_bytes(&mut b);
    b
}
fn some_draws<D: digest::Digest<OutputSize = digest::generic_array::typenum::U32>>(g: &mut FiatShamirRng<D>, r: &mut SRng) {
    for _ in 0..r.below(6) {
        match r.below(4) {
            0 => drop(g.next_u32()),
            1 => drop(g.next_u64()),
            2 => {
                let n = r.below(300);
                g.fill_bytes(&mut vec![0; n])
            }
            _ => {
                let n = r.below(70);
                g.try_fill_bytes(&mut vec![0; n]).ok();
            }
        }
    }
}
fn fs_on<D: digest::Digest<OutputSize = digest::generic_array::typenum::U32>>(o: &[String]) {
    let seed = num(o, 1);
    let r = &mut SRng::new(mix(&[seed, 12]));
    let bytes = |r: &mut SRng| -> Vec<u8> {
        let n = match r.below(26) {
            0 => (1 << r.below(18)) + r.below(3),
            1..=4 => 0,
            5..=8 => 1,
            9..=12 => 32,
            13..=16 => r.below(64),
            17..=20 => r.below(300),
            _ => 100 + r.below(3000),
        };
        (0..n).map(|_| r.u64() as u8).collect()
    };
    let start = bytes(r);
    let n = num(o, 2) as usize % 12;
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| bytes(r)).collect();
    const W: usize = 64;
    /// The stream after the seed and after every absorption; further draws in between if told so.
    fn streams<D: digest::Digest<OutputSize = digest::generic_array::typenum::U32>>(start: &[u8], inputs: &[Vec<u8>], draws: Option<u64>) -> Vec<Vec<u8>> {
        let mut r = SRng::new(draws.unwrap_or(0));
        let mut g = FiatShamirRng::<D>::from_seed(start);
        let mut out = vec![draw(&mut g, W)];
        for i in inputs {
            if draws.is_some() {
                some_draws(&mut g, &mut r);
            }
            g.absorb(i);
            out.push(draw(&mut g, W));
        }
        out
    }
    let bad = |what: String| violation("generator", format!("seed of {} bytes, {n} absorptions: {what}", start.len()));
    let own = match guarded(|| streams::<D>(&start, &inputs, None)) {
        Ok(x) => x,
        Err(e) => return bad(format!("panic {e}")),
    };
    probe("checked-generator");
    event(&format!("generator: {n} absorptions, last {:x}", hash_bytes(own.last().unwrap())));
    if streams::<D>(&start, &inputs, None) != own {
        bad("the same inputs give another stream".into());
    }
    if streams::<D>(&start, &inputs, Some(seed)) != own {
        bad("the stream depends on how many bytes were drawn before".into());
    }
    // Interleaved with another generator on another thread.
    let other = Arc::new(std::sync::Mutex::new(vec![]));
    let (a, b, c) = (start.clone(), inputs.clone(), other.clone());
    concurrently(vec![
        Box::new(move || {
            let s = restarting(|| streams::<D>(&a, &b, Some(seed + 1)));
            *c.lock().unwrap() = s;
        }),
        Box::new(move || drop(restarting(|| streams::<D>(b"another", &[vec![1; 10], vec![2; 100]], Some(seed))))),
    ]);
    if *other.lock().unwrap() != own {
        bad("the stream depends on another generator".into());
    }
    for i in 0..own.len() {
        if own[i][..W / 2] == own[i][W / 2..] {
            bad("the stream repeats itself".into());
        }
        for j in 0..i {
            if own[i] == own[j] {
                bad(format!("the streams after {j} and {i} absorptions are the same"));
            }
        }
    }
    // Different seed or absorbed material: other streams from there on, the same before.
    for _ in 0..num(o, 3) % 12 {
        let (mut s2, mut in2) = (start.clone(), inputs.clone());
        let flip = |v: &mut Vec<u8>, r: &mut SRng| {
            if v.is_empty() || r.chance(1, 6) {
                v.push(r.u64() as u8)
            } else if r.chance(1, 6) {
                v.pop();
            } else if r.chance(1, 6) {
                let x = r.u64() as u8;
                v.insert(0, x)
            } else {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8)
            }
        };
        let (from, what) = match r.below(5) {
            0 => {
                flip(&mut s2, r);
                (0, "the seed changed".to_string())
            }
            1 | 2 if n > 0 => {
                let j = r.below(n);
                flip(&mut in2[j], r);
                (j + 1, format!("absorption {j} changed"))
            }
            3 if n > 1 => {
                let j = r.below(n - 1);
                if in2[j] == in2[j + 1] {
                    continue;
                }
                in2.swap(j, j + 1);
                (j + 1, format!("absorptions {j} and {} exchanged", j + 1))
            }
            4 if n > 0 => {
                // One absorption split into two.
                let j = r.below(n);
                let k = r.below(in2[j].len() + 1);
                let tail = in2[j].split_off(k);
                in2.insert(j + 1, tail);
                let x = streams::<D>(&s2, &in2, None);
                if x.last() == own.last() {
                    bad(format!("absorption {j} in two pieces gives the same stream"));
                }
                continue;
            }
            _ => continue,
        };
        let x = streams::<D>(&s2, &in2, None);
        for i in 0..own.len() {
            if (x[i] == own[i]) != (i < from) {
                bad(format!("{what}: the stream after {i} absorptions is {}", if i < from { "different" } else { "the same" }));
                break;
            }
        }
        probe("checked-generator-variant");
    }
}

// ----------------------------------------------------------------------------------- C13: streams

/// A stream that keeps to its contract, but only just.
struct SimStream {
    data: Vec<u8>,
    pos: usize,
    r: SRng,
    /// Largest piece handled at once.
    piece: usize,
    interrupts: u32,
    /// The stream fails (or ends) here.
    fail_at: Option<usize>,
    how: usize,
    failed: bool,
}
impl SimStream {
    fn new(seed: u64, piece: usize, interrupts: u32) -> Self {
        SimStream { data: vec![], pos: 0, r: SRng::new(seed), piece: piece.max(1), interrupts, fail_at: None, how: 0, failed: false }
    }
    fn next(&mut self, want: usize) -> io::Result<usize> {
        simrt::op_point();
        if self.interrupts > 0 && self.r.chance(self.interrupts, 10) {
            fault("interrupted-io");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = want.min(1 + self.r.below(self.piece));
        if let Some(at) = self.fail_at {
            if self.pos >= at && want > 0 {
                self.failed = true;
                return match self.how % 4 {
                    0 => Ok(0),
                    1 => Err(io::Error::new(io::ErrorKind::Other, "i/o error")),
                    2 => Err(io::Error::new(io::ErrorKind::WouldBlock, "would block")),
                    _ => Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")),
                };
            }
            n = n.min(at - self.pos);
        }
        if n < want {
            fault("short-io");
        }
        Ok(n)
    }
}
impl io::Write for SimStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.next(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for SimStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = self.next(b.len().min(left))?;
        if n == 0 && left == 0 && !b.is_empty() {
            self.failed = true;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A value to be stored, behind closures: its type is a detail.
struct Val {
    label: String,
    canon: Vec<u8>,
    write: Box<dyn Fn(&mut dyn io::Write, bool) -> Result<usize, String> + Send + Sync>,
    /// Reads a value and encodes it canonically.
    read: Box<dyn Fn(&mut dyn io::Read, bool, bool) -> Result<Vec<u8>, String> + Send + Sync>,
    /// Does honest verification accept the (canonically encoded) value in place of the original?
    accepts: Box<dyn Fn(&[u8]) -> bool + Send + Sync>,
    /// The same value as far as verification is concerned.
    same: Box<dyn Fn(&[u8]) -> bool + Send + Sync>,
    /// Only this value is accepted. (Not so for a proof about zeros, say: there other proofs are valid.)
    unique: bool,
}
fn val<T: CanonicalSerialize + CanonicalDeserialize + Clone + Send + Sync + 'static>(label: String, x: T, accepts: impl Fn(&T) -> bool + Send + Sync + 'static) -> Val {
    let canon = quiet(|| enc(&x));
    let c2 = canon.clone();
    Val {
        label,
        canon,
        write: Box::new(move |w, c| {
            let c = if c { Compress::Yes } else { Compress::No };
            let n = x.serialized_size(c);
            x.serialize_with_mode(w, c).map_err(e2s)?;
            Ok(n)
        }),
        read: Box::new(|r, c, v| {
            let x = T::deserialize_with_mode(r, if c { Compress::Yes } else { Compress::No }, if v { Validate::Yes } else { Validate::No }).map_err(e2s)?;
            Ok(quiet(|| enc(&x)))
        }),
        accepts: Box::new(move |b| quiet(|| dec_trusted(b)).map_or(false, |x: T| accepts(&x))),
        same: Box::new(move |b| b == c2),
        unique: true,
    }
}
fn val_of_proof(s: &Sess) -> Val {
    let (a, b, c, d) = (s.clone(), s.clone(), s.clone(), s.clone());
    Val {
        label: s.label(),
        canon: s.honest.clone(),
        write: Box::new(move |w, z| a.fam.rewrite(&a.honest, w, z)),
        read: Box::new(move |r, z, v| b.fam.reread(r, z, v)),
        accepts: Box::new(move |x| matches!(verdict(c.fam, &c.vkey, &c.stmt, x), Verdict::Accept)),
        same: Box::new(move |x| d.fam.canon(d.size, x) == d.fam.canon(d.size, &d.honest)),
        unique: s.shape == 0,
    }
}
pub const VALUES: &[&str] = &["afgho-g1", "afgho-g2", "pedersen-g1", "pedersen-g2", "identity-f", "identity-g1", "identity-gt", "placeholder", "f"];
fn val_of_commitment<P: Eng, C: Scheme<P> + 'static>(label: String, n: usize, seed: u64, shape: usize) -> Val
where
    C::Output: 'static,
{
    quiet(|| {
        let r = &mut SRng::new(seed);
        let k: Vec<Fr> = (0..n).map(|_| rnz(r)).collect();
        let m: Vec<Fr> = shaped::<P, Fr>(r, n, shape, 0);
        let com = C::com(&k, &m);
        let (ck, cm): (Vec<C::Key>, Vec<C::Message>) = (k.iter().map(C::key).collect(), m.iter().map(C::msg).collect());
        val(label, com, move |c| guarded(|| C::verify(&ck, &cm, c).unwrap_or(false)).unwrap_or(false))
    })
}
fn value(o: &[String]) -> Val {
    let (k, bls) = split(word(o, 1));
    let (n, seed, shape) = (num(o, 2) as usize, num(o, 3), num(o, 4) as usize);
    let label = format!("{} value of {n}", word(o, 1));
    match k {
        // (Not a list of them: a list of values without any bytes has no length a reader could check.)
        "placeholder" => val(label, (Fr::from(n as u64), HomomorphicPlaceholderValue), move |v| v.0 == Fr::from(n as u64)),
        "f" => {
            let v = shaped::<Toy, Fr>(&mut SRng::new(seed), n, shape, 0);
            val(label, IdentityOutput(v.clone()), move |x| x.0 == v)
        }
        _ if bls => with_scheme!(Bls, k, val_of_commitment(label, n, seed, shape)),
        _ => with_scheme!(Toy, k, val_of_commitment(label, n, seed, shape)),
    }
}

/// `io <value> <what> <compressed> <validated> <seed>`
fn stream(v: &Val, o: &[String]) {
    let (what, z, validate, seed) = (word(o, 2), num(o, 3) % 2 == 1, num(o, 4) % 2 == 1, num(o, 5));
    let r = &mut SRng::new(mix(&[seed, 13]));
    let label = format!("{} ({what}, {})", v.label, if z { "compressed" } else { "uncompressed" });
    let bad = |t: String| violation("stream", format!("{label}: {t}"));
    let ok = |t: &str| {
        event(&format!("{label}: {t}"));
        probe(&format!("checked-{what}"));
    };
    let (piece, interrupts) = (*r.pick(&[1, 1, 2, 7, 31, 100, 100_000]), *r.pick(&[0, 0, 1, 5]));
    // What a plain memory buffer receives.
    let mut plain: Vec<u8> = vec![];
    let announced = match quiet(|| guarded(|| (v.write)(&mut plain, z))) {
        Ok(Ok(n)) => n,
        e => return bad(format!("cannot be written to memory: {e:?}")),
    };
    if announced != plain.len() {
        return bad(format!("announces {announced} bytes and writes {}", plain.len()));
    }
    let read = |data: &[u8], fail: Option<usize>, how: usize, r: &mut SRng, v2: bool| {
        let mut s = SimStream::new(r.u64(), piece, interrupts);
        s.data = data.to_vec();
        s.fail_at = fail;
        s.how = how;
        let x = guarded(|| (v.read)(&mut s, z, v2));
        (x, s)
    };
    match what {
        "copy" => {
            let mut w = SimStream::new(r.u64(), piece, interrupts);
            match guarded(|| (v.write)(&mut w, z)) {
                Ok(Ok(_)) => {}
                e => return bad(format!("writing to a slow stream failed: {e:?}")),
            }
            if w.data != plain {
                return bad("a slow stream received other bytes than a buffer".into());
            }
            // Followed by something else that is not part of it.
            let mut data = plain.clone();
            let tail = r.below(40);
            data.extend((0..tail).map(|_| r.u64() as u8));
            let (x, s) = read(&data, None, 0, r, validate);
            match x {
                Ok(Ok(c)) if c == v.canon => {}
                Ok(Ok(_)) => return bad("reads back as another value".into()),
                e => return bad(format!("cannot be read back: {e:?}")),
            }
            if s.pos != plain.len() {
                return bad(format!("reading consumed {} of its {} bytes", s.pos, plain.len()));
            }
            if !(v.accepts)(&v.canon) {
                return bad("is not accepted after it was read back".into());
            }
            ok("intact")
        }
        "write-fails" => {
            if plain.is_empty() {
                return;
            }
            let at = r.below(plain.len());
            let mut w = SimStream::new(r.u64(), piece, interrupts);
            w.fail_at = Some(at);
            w.how = r.below(4);
            fault("write-error");
            match guarded(|| (v.write)(&mut w, z)) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return bad(format!("writing reports success though the stream failed after {at} of {} bytes", plain.len())),
                Err(e) => return bad(format!("writing to a failing stream panicked: {e}")),
            }
            if w.data != plain[..w.data.len()] {
                return bad("a failing stream received other bytes".into());
            }
            // What was written before the crash is found after the restart.
            match read(&w.data, None, 0, r, validate).0 {
                Ok(Err(_)) => ok("half-written value refused"),
                Ok(Ok(_)) => bad("a half-written value was read as a complete one".into()),
                Err(e) => bad(format!("reading a half-written value panicked: {e}")),
            }
        }
        "read-fails" => {
            if plain.is_empty() {
                return;
            }
            let at = match r.below(4) {
                0 => 0,
                1 => plain.len() - 1,
                _ => r.below(plain.len()),
            };
            let how = r.below(4);
            fault("read-error");
            let (x, s) = read(&plain, Some(at), how, r, validate);
            match x {
                Ok(Err(_)) => ok("refused"),
                Ok(Ok(_)) => bad(format!("reading reports success though the stream ended or failed after {at} of {} bytes (noticed: {})", plain.len(), s.failed)),
                Err(e) => bad(format!("reading from a failing stream panicked: {e}")),
            }
        }
        "damage" => {
            if plain.is_empty() {
                return;
            }
            let mut data = plain.clone();
            let i = r.below(data.len());
            match r.below(6) {
                0 | 1 => data[i] ^= 1 << r.below(8),
                2 => data[i] = r.u64() as u8,
                3 => {
                    let n = (1 + r.below(40)).min(data.len() - i);
                    data[i..i + n].fill(0);
                }
                4 => {
                    // A block written in the wrong place.
                    let n = (1 + r.below(64)).min(data.len() - i);
                    let j = r.below(data.len() - n + 1);
                    let b = data[i..i + n].to_vec();
                    data[j..j + n].copy_from_slice(&b);
                }
                _ => {
                    data.remove(i);
                    data.push(0);
                }
            }
            if data == plain {
                return;
            }
            fault("damaged-bytes");
            match read(&data, None, 0, r, true).0 {
                Ok(Err(_)) => ok("refused"),
                Ok(Ok(c)) => {
                    if (v.same)(&c) {
                        ok("read as the same value")
                    } else if v.unique && (v.accepts)(&c) {
                        bad(format!("bytes damaged at {i} were read as another value, which is accepted in place of the original"))
                    } else {
                        ok("read as another value, not accepted")
                    }
                }
                Err(e) => bad(format!("reading damaged bytes panicked: {e}")),
            }
        }
        "two" => {
            // Two values in one stream.
            let mut w = SimStream::new(r.u64(), piece, interrupts);
            for _ in 0..2 {
                match guarded(|| (v.write)(&mut w, z)) {
                    Ok(Ok(_)) => {}
                    e => return bad(format!("writing failed: {e:?}")),
                }
            }
            let mut s = SimStream::new(r.u64(), piece, interrupts);
            s.data = w.data;
            for i in 0..2 {
                match guarded(|| (v.read)(&mut s, z, validate)) {
                    Ok(Ok(c)) if c == v.canon => {}
                    e => return bad(format!("value {i} of two in one stream: {}", if let Ok(Ok(_)) = e { "another value".into() } else { format!("{e:?}") })),
                }
            }
            ok("intact")
        }
        w => panic!("harness: io {w}"),
    }
}
pub const IOS: &[&str] = &["copy", "write-fails", "read-fails", "damage", "two"];

pub fn streams(p: &Plan) {
    let mut vals: Vec<Arc<Val>> = vec![];
    if p.find("session").is_some() {
        let Some(ss) = sessions(p, true) else { return };
        for s in &ss {
            if !matches!(verdict(s.fam, &s.vkey, &s.stmt, &s.honest), Verdict::Accept) {
                void(format!("{}: honest proof not accepted", s.label()));
                return;
            }
            vals.push(Arc::new(val_of_proof(s)));
        }
    }
    for o in p.ops_named("value") {
        vals.push(Arc::new(value(o)));
    }
    if vals.is_empty() {
        void("nothing to store");
        return;
    }
    simrt::arm_crashes(&crashes(p));
    let jobs = p
        .ops_named("io")
        .cloned()
        .map(|o| {
            let v = vals[num(&o, 1) as usize % vals.len()].clone();
            Box::new(move || restarting(|| stream(&v, &o))) as Box<dyn FnOnce() + Send>
        })
        .collect();
    concurrently(jobs);
    simrt::disarm_crashes();
}

// ------------------------------------------------------------------------------- C15: determinism

/// Everything that can be observed of one session.
#[derive(Clone, PartialEq)]
struct Facts {
    key: Vec<u8>,
    vkey: Vec<u8>,
    stmt: Vec<u8>,
    proof: Vec<u8>,
    verdicts: Vec<String>,
}
fn altered(s: &Sess, seed: u64) -> Vec<Vec<u8>> {
    quiet(|| {
        let r = &mut SRng::new(mix(&[seed, 15]));
        let (n, _) = s.fam.shape_of(Part::Proof, &s.honest);
        (0..2)
            .filter_map(|_| {
                let t = Tamper::Alter { part: Part::Proof, idx: r.below(n.max(1)), alt: Alt::Rand(r.u64() >> 8) };
                s.fam.tamper(s.size, &t, &s.vkey, &s.stmt, &s.honest, &[]).map(|f| f.proof)
            })
            .collect()
    })
}
fn short(v: Verdict) -> String {
    match v {
        Verdict::Accept => "accept".into(),
        Verdict::Reject => "reject".into(),
        Verdict::Refuse => "error".into(),
        Verdict::Undecodable => "undecodable".into(),
        Verdict::Panic(_) => "panic".into(),
    }
}
fn facts(so: &[String]) -> Result<(Sess, Facts), String> {
    let mut s = Sess::prepare(so, None, 0)?;
    s.prove_now()?;
    let mut verdicts = vec![short(verdict(s.fam, &s.vkey, &s.stmt, &s.honest))];
    for x in altered(&s, s.seed) {
        verdicts.push(short(verdict(s.fam, &s.vkey, &s.stmt, &x)));
    }
    let f = Facts { key: s.key.clone(), vkey: s.vkey.clone(), stmt: s.stmt.clone(), proof: s.honest.clone(), verdicts };
    Ok((s, f))
}

pub fn same(p: &Plan) {
    // The reference: everything once, alone, on a single worker thread.
    let alone = Pool::of(2);
    simrt::set_memory(p.memory.min(1) as u32);
    let mut base: Vec<(Sess, Facts)> = vec![];
    for o in p.ops_named("session") {
        match alone.run(|| facts(o)) {
            Ok(x) => base.push(x),
            Err(e) if e.contains("harness:") => panic!("{e}"),
            Err(e) => return void(e),
        }
    }
    let several = |o: &[String], fresh: bool| {
        let (k, bls) = split(word(o, 1));
        let (n, count) = (num(o, 2) as usize, num(o, 4) as usize);
        flat(|| Ok(if bls { crate::table::series::<Bls>(k, n, num(o, 3), count, fresh) } else { crate::table::series::<Toy>(k, n, num(o, 3), count, fresh) }))
    };
    let products: Vec<_> = p.ops_named("series").cloned().map(|o| { let x = alone.run(|| several(&o, true)); (o, x) }).collect();
    if base.is_empty() && products.is_empty() {
        return void("no session");
    }
    let base = Arc::new(base);
    simrt::set_memory(p.memory as u32);
    let diff = |what: &str, s: &Sess, pool: u64| violation("not-deterministic", format!("{}: {what} differs from the one computed alone on one thread (pool {pool})", s.label()));
    simrt::arm_crashes(&crashes(p));
    let jobs = p
        .ops_named("actor")
        .cloned()
        .map(|o| {
            let base = base.clone();
            Box::new(move || {
                let (s, f) = &base[num(&o, 1) as usize % base.len()];
                let (what, pool, persistent) = (word(&o, 2).to_string(), num(&o, 3), num(&o, 4) == 0);
                let at = Pool::of(pool);
                let work = || {
                    at.run(|| match what.as_str() {
                        "setup" => {
                            let k = flat(|| s.fam.setup(mix(&[s.seed, 1]), s.size));
                            if k.as_ref() != Ok(&f.key) {
                                diff(&format!("key ({})", k.err().unwrap_or_default()), s, pool)
                            }
                        }
                        "state" => {
                            let x = flat(|| s.fam.state(&s.key, &s.wit));
                            if x.as_ref() != Ok(&f.stmt) {
                                diff(&format!("statement ({})", x.err().unwrap_or_default()), s, pool)
                            }
                        }
                        "prove" => {
                            let x = flat(|| s.fam.prove(&s.key, &s.wit, &s.stmt));
                            if x.as_ref() != Ok(&f.proof) {
                                diff(&format!("proof ({})", x.err().unwrap_or_default()), s, pool)
                            }
                        }
                        "fail" => {
                            // A session that is refused leaves no trace.
                            drop(guarded(|| s.fam.refusal(num(&o, 1) as usize, s.seed, &s.key, &s.wit, &s.stmt)));
                        }
                        _ => {
                            let mut v = vec![short(verdict(s.fam, &s.vkey, &s.stmt, &s.honest))];
                            for x in altered(s, s.seed) {
                                v.push(short(verdict(s.fam, &s.vkey, &s.stmt, &x)));
                            }
                            if v != f.verdicts {
                                diff(&format!("verdict ({v:?}, alone {:?})", f.verdicts), s, pool)
                            }
                        }
                    })
                };
                if persistent {
                    restarting(work);
                } else if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(work)) {
                    if !e.is::<SimCrash>() {
                        std::panic::resume_unwind(e)
                    }
                    fault("session-abandoned");
                }
                event(&format!("{}: {what} done (pool {pool})", s.label()));
                probe(&format!("checked-{what}"));
            }) as Box<dyn FnOnce() + Send>
        })
        .chain(products.into_iter().map(|(o, want)| {
            Box::new(move || {
                restarting(|| {
                    let got = Pool::of(num(&o, 5)).run(|| several(&o, false));
                    if got != want {
                        let at = match (&got, &want) {
                            (Ok(g), Ok(w)) => g.iter().zip(w).position(|(g, w)| g != w),
                            _ => None,
                        };
                        violation("not-deterministic", format!("products {} of length {}: number {at:?} differs from the one computed alone with operands elsewhere in memory", word(&o, 1), num(&o, 2)))
                    }
                });
                probe("checked-series");
            }) as Box<dyn FnOnce() + Send>
        }))
        .collect();
    concurrently(jobs);
    simrt::disarm_crashes();
    // Once more after all that, from the start.
    for (i, o) in p.ops_named("session").enumerate() {
        match facts(o) {
            Ok((_, f)) => {
                if f != base[i].1 {
                    diff("a later repetition", &base[i].0, 0)
                }
                probe("checked-again");
            }
            Err(e) => violation("not-deterministic", format!("{}: fails when repeated: {e}", base[i].0.label())),
        }
    }
}

/// What the sequential build computed for this plan, one line per operation.
static SEQUENTIAL: Shared<Option<Vec<String>>> = Shared::new(None);
fn line(o: &[String]) -> String {
    match word(o, 0) {
        "session" => match facts(o) {
            Ok((_, f)) => format!("{:x} {:x} {:x} {:x} {:?}", hash_bytes(&f.key), hash_bytes(&f.vkey), hash_bytes(&f.stmt), hash_bytes(&f.proof), f.verdicts),
            Err(e) => format!("failed: {e}"),
        },
        "table" => {
            let (k, bls) = split(word(o, 1));
            if bls {
                crate::table::entry::<Bls>(k, num(o, 2) as usize, num(o, 3))
            } else {
                crate::table::entry::<Toy>(k, num(o, 2) as usize, num(o, 3))
            }
        }
        w => panic!("harness: line {w}"),
    }
}
fn work_of(p: &Plan) -> Vec<Vec<String>> {
    p.ops.iter().filter(|o| o[0] == "session" || o[0] == "table").cloned().collect()
}
/// The sequential program: reads operations, prints what they give.
pub fn sequential_main() -> i32 {
    let mut t = String::new();
    io::Read::read_to_string(&mut io::stdin(), &mut t).expect("operations");
    let p = Plan::from_text(&t).expect("plan");
    std::panic::set_hook(Box::new(|_| {}));
    *CTX.get() = Some(Ctx::detached());
    HASH.get().hostile = p.hostile;
    for o in work_of(&p) {
        println!("{}", line(&o));
    }
    0
}
/// Asks the sequential builds before the simulation starts.
pub fn ask_sequential(p: &Plan) {
    let exe = std::env::current_exe().expect("executable");
    let base = exe.parent().and_then(|d| d.parent()).expect("target directory").to_path_buf();
    let mut out = vec![];
    if !base.join("sequential/release/ripp-sim").exists() || !base.join("sequential/release/ripp-table").exists() {
        return;
    }
    for o in work_of(p) {
        let bin = if o[0] == "table" { base.join("sequential/release/ripp-table") } else { base.join("sequential/release/ripp-sim") };
        let q = Plan { ops: vec![o], ..p.clone() };
        use std::process::{Command, Stdio};
        let ans = Command::new(&bin).arg("sequential").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().and_then(|mut c| {
            io::Write::write_all(c.stdin.as_mut().unwrap(), q.to_text().as_bytes())?;
            c.wait_with_output()
        });
        match ans {
            Ok(a) => out.push(String::from_utf8_lossy(&a.stdout).trim().to_string()),
            Err(e) => {
                eprintln!("harness: {}: {e}", bin.display());
                unsafe { libc::_exit(98) }
            }
        }
    }
    *SEQUENTIAL.get() = Some(out);
}
pub fn sequential(p: &Plan) {
    let Some(want) = SEQUENTIAL.get().clone() else { return void("no sequential build") };
    let jobs = work_of(p)
        .into_iter()
        .zip(want)
        .map(|(o, want)| {
            let pool = Pool::of(num(&o, 7));
            Box::new(move || {
                let got = pool.run(|| guarded(|| line(&o))).unwrap_or_else(|e| format!("panic {e}"));
                let label = o[1..].join(" ");
                event(&format!("{label}: {got}"));
                probe("checked-sequential");
                if got != want {
                    violation("not-deterministic", format!("{label}: the sequential build computes {want}, the parallel build {got}"));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    concurrently(jobs);
}

// ------------------------------------------------------------------------------------- C16: setup

/// A random source that hands out one fixed byte stream in pieces.
struct Pieces {
    r: SRng,
    buf: Vec<u8>,
    piece: usize,
    taken: u64,
}
impl Pieces {
    fn new(seed: u64, piece: usize) -> Self {
        Pieces { r: SRng::new(seed), buf: vec![], piece: piece.max(1), taken: 0 }
    }
}
impl RngCore for Pieces {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            if self.buf.is_empty() {
                simrt::op_point();
                // 64 bytes always hold the same part of the stream, whatever the pieces.
                while self.buf.len() < self.piece {
                    self.buf.extend(self.r.u64().to_le_bytes());
                }
                self.buf.reverse();
            }
            *x = self.buf.pop().unwrap();
            self.taken += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub const SETUPS: &[&str] = &[
    "tipa", "tipa-multiexp", "tipa-ssm", "groth16", "kzg", "bivariate", "univariate", "transparent-bivariate", "transparent-univariate", "gipa", "gipa-ssm", "afgho-g1",
    "afgho-g2", "pedersen-g1", "pedersen-g2",
];

/// A key as far as its structure is concerned.
struct Keys<P: Eng> {
    srs: Option<SrsT<P>>,
    vkey: Option<VSrsT<P>>,
    /// Wanted numbers of powers in the two groups.
    want: (usize, usize),
    /// Powers of the left exponent, in affine form.
    kzg: Option<Vec<P::G1Affine>>,
    kzg_want: usize,
    /// Elements that must have nothing to do with each other.
    free1: Vec<P::G1>,
    free2: Vec<P::G2>,
    free_want: (usize, usize),
    /// What `get_commitment_keys` returns.
    cks: Option<(Vec<P::G2>, Vec<P::G1>)>,
    bytes: Vec<u8>,
}
fn srs_of<P: Eng>(s: &SRS<P>, a: usize, b: usize) -> Keys<P> {
    let v = s.get_verifier_key();
    let k = crate::fam_ipa::from_srs(s);
    let v = crate::fam_ipa::from_vsrs(&v);
    let bytes = quiet(|| enc(&k));
    Keys { cks: Some(s.get_commitment_keys()), srs: Some(k), vkey: Some(v), want: (a, b), kzg: None, kzg_want: 0, free1: vec![], free2: vec![], free_want: (0, 0), bytes }
}
fn free<P: Eng>(a: Vec<P::G1>, b: Vec<P::G2>, n: (usize, usize)) -> Keys<P> {
    let bytes = quiet(|| enc(&(a.clone(), b.clone())));
    Keys { srs: None, vkey: None, want: (0, 0), kzg: None, kzg_want: 0, free1: a, free2: b, free_want: n, cks: None, bytes }
}
type E1 = crate::digests::D64;
fn setup_of<P: Eng, R: RngCore>(kind: &str, n: usize, m: usize, rng: &mut R) -> Result<Keys<P>, String> {
    use crate::fam_app::err;
    use ark_inner_products::{MultiexponentiationInnerProduct as Me, PairingInnerProduct as Pi, ScalarInnerProduct};
    use ark_ip_proofs::{gipa::GIPA, tipa::structured_scalar_message::{GIPAWithSSM, TIPAWithSSM}};
    type G1<P> = <P as Pairing>::G1;
    type Ac1<P> = AFGHOCommitmentG1<P>;
    type Ac2<P> = AFGHOCommitmentG2<P>;
    let extra = |mut k: Keys<P>, one: Vec<P::G1>, two: Vec<P::G2>| {
        let b = quiet(|| enc(&(one.clone(), two.clone())));
        k.bytes.extend(b);
        k.free_want = (one.len(), two.len());
        k.free1 = one;
        k.free2 = two;
        k
    };
    Ok(match kind {
        "tipa" => {
            let (s, _) = TIPA::<Pi<P>, Ac1<P>, Ac2<P>, IdentityCommitment<PairingOutput<P>, Fr>, P, E1>::setup(rng, n).map_err(err)?;
            srs_of(&s, 2 * n - 1, 2 * n - 1)
        }
        "tipa-multiexp" => {
            // With a commitment key of its own for the product.
            let (s, k) = TIPA::<Me<G1<P>>, Ac1<P>, PedersenCommitment<G1<P>>, Ac1<P>, P, E1>::setup(rng, n).map_err(err)?;
            extra(srs_of(&s, 2 * n - 1, 2 * n - 1), vec![], vec![k])
        }
        "tipa-ssm" => {
            let (s, k) = TIPAWithSSM::<ScalarInnerProduct<Fr>, PedersenCommitment<P::G2>, PedersenCommitment<G1<P>>, P, E1>::setup(rng, n).map_err(err)?;
            extra(srs_of(&s, 2 * n - 1, 2 * n - 1), vec![k], vec![])
        }
        "groth16" => srs_of(&setup_inner_product::<P, E1, R>(rng, n).map_err(err)?, 2 * n - 1, 2 * n - 1),
        "kzg" => {
            let (p, v) = pc::KZG::<P>::setup(rng, n).map_err(err)?;
            let v = crate::fam_ipa::from_vsrs(&v);
            let bytes = quiet(|| enc(&(p.clone(), v.clone())));
            Keys { srs: None, vkey: Some(v), want: (0, 0), kzg: Some(p), kzg_want: n + 1, free1: vec![], free2: vec![], free_want: (0, 0), cks: None, bytes }
        }
        "bivariate" => {
            let (s, k) = pc::BivariatePolynomialCommitment::<P, E1>::setup(rng, n, m).map_err(err)?;
            // (As many keys as the inner-product argument needs: a power of two.)
            let mut x = srs_of(&s, 1, 2 * (n + 1).next_power_of_two() - 1);
            x.bytes.extend(quiet(|| enc(&k)));
            x.kzg = Some(k);
            x.kzg_want = m + 1;
            x
        }
        "univariate" => {
            let (s, k) = pc::UnivariatePolynomialCommitment::<P, E1>::setup(rng, n).map_err(err)?;
            let rows = (s.h_beta_powers.len() + 1) / 2;
            let cols = k.len();
            if rows * cols < n + 1 || rows.count_ones() != 1 {
                return Err(format!("keys for degree {n} hold {rows} times {cols} coefficients"));
            }
            let mut x = srs_of(&s, 1, 2 * rows - 1);
            x.bytes.extend(quiet(|| enc(&k)));
            x.kzg = Some(k);
            x.kzg_want = cols;
            x
        }
        "transparent-bivariate" => {
            let (a, b) = tpc::BivariatePolynomialCommitment::<P, E1>::setup(rng, n, m).map_err(err)?;
            free(a, b, ((m + 1).next_power_of_two(), (n + 1).next_power_of_two()))
        }
        "transparent-univariate" => {
            let (a, b) = tpc::UnivariatePolynomialCommitment::<P, E1>::setup(rng, n).map_err(err)?;
            let w = (a.len(), b.len());
            if w.0 * w.1 < n + 1 || w.0.count_ones() != 1 || w.1.count_ones() != 1 {
                return Err(format!("keys for degree {n} hold {} times {} coefficients", w.1, w.0));
            }
            free(a, b, w)
        }
        "gipa" => {
            let (mut a, b, c) = GIPA::<Me<G1<P>>, Ac1<P>, PedersenCommitment<G1<P>>, Ac1<P>, E1>::setup(rng, n).map_err(err)?;
            a.push(c);
            free(b, a, (n, n + 1))
        }
        "gipa-ssm" => {
            let (a, c) = GIPAWithSSM::<ScalarInnerProduct<Fr>, PedersenCommitment<G1<P>>, PedersenCommitment<G1<P>>, E1>::setup(rng, n).map_err(err)?;
            let mut a = a;
            a.push(c);
            free(a, vec![], (n + 1, 0))
        }
        "afgho-g1" => free(vec![], Ac1::<P>::setup(rng, n).map_err(err)?, (0, n)),
        "afgho-g2" => free(Ac2::<P>::setup(rng, n).map_err(err)?, vec![], (n, 0)),
        "pedersen-g1" => free(PedersenCommitment::<P::G1>::setup(rng, n).map_err(err)?, vec![], (n, 0)),
        "pedersen-g2" => free(vec![], PedersenCommitment::<P::G2>::setup(rng, n).map_err(err)?, (0, n)),
        k => panic!("harness: setup {k}"),
    })
}
/// The exponents of all elements that must be independent (where the engine shows them).
fn exponents<P: Eng>(k: &Keys<P>) -> Vec<Fr> {
    use std::any::Any;
    let one = |x: &P::G1| (x as &dyn Any).downcast_ref::<crate::toy::TG1>().map(|x| x.log());
    let two = |x: &P::G2| (x as &dyn Any).downcast_ref::<crate::toy::TG2>().map(|x| x.log());
    let mut v: Vec<Option<Fr>> = k.free1.iter().map(one).chain(k.free2.iter().map(two)).collect();
    if let Some(s) = &k.vkey {
        v.push(one(&s.2));
        v.push(two(&s.3));
    }
    v.into_iter().flatten().collect()
}
/// A simple relation between elements that should have none: between the values derived from one
/// or two of them by small multiples, offsets, powers, sums, differences, products and quotients no
/// two agree. (In a field of this size they never do by chance.)
fn relation<P: Eng>(k: &Keys<P>) -> Option<String> {
    let mut x = exponents(k);
    // (Pairs make the work quadratic.)
    if x.len() > 48 {
        x.drain(24..x.len() - 24);
    }
    // Drawn from the whole field: neither they nor their inverses or negatives are short.
    for (i, a) in x.iter().enumerate() {
        let inv = a.inverse().unwrap_or_default();
        if [*a, -*a, inv, -inv].iter().any(|v| v.into_bigint().num_bits() < Fr::MODULUS_BIT_SIZE - 63) {
            return Some(format!("key exponent {i} is not drawn from the whole field"));
        }
    }
    let mut seen: std::collections::HashMap<Fr, (&str, usize, usize)> = Default::default();
    let mut hit = None;
    let mut put = |v: Fr, what: (&'static str, usize, usize)| {
        if let Some(old) = seen.insert(v, what) {
            hit.get_or_insert(format!("key exponents are related: {old:?} and {what:?} agree"));
        }
    };
    put(Fr::zero(), ("zero", 0, 0));
    let small: Vec<(usize, Fr)> = (1..=16).flat_map(|c| [(c, Fr::from(c as u64)), (c + 100, -Fr::from(c as u64))]).collect();
    for (n, c) in &small {
        put(*c, ("small", *n, 0));
    }
    let inv: Vec<Fr> = x.iter().map(|a| a.inverse().unwrap_or_default()).collect();
    for (i, a) in x.iter().enumerate() {
        for (n, c) in &small {
            put(*a * c, ("multiple", *n, i));
            put(*a + c, ("offset", *n, i));
        }
        put(a.square() * a, ("cube", i, 0));
        put(inv[i], ("inverse", i, 0));
        for (j, b) in x[..=i].iter().enumerate() {
            put(*a * b, ("product", i, j));
            if i != j {
                put(*a + b, ("sum", i, j));
                put(*a - b, ("difference", i, j));
                put(*a * inv[j], ("quotient", i, j));
            }
        }
    }
    hit
}
/// What is wrong with a key (nothing: None).
fn flaw<P: Eng>(k: &Keys<P>) -> Option<String> {
    let e = |a: &P::G1, b: &P::G2| P::pairing(*a, *b);
    let (g, h) = (P::G1::generator(), P::G2::generator());
    let t0 = e(&g, &h);
    let mut secrets: Vec<PairingOutput<P>> = vec![];
    if let Some((ga, hb, g_beta, h_alpha)) = &k.srs {
        if (ga.len(), hb.len()) != k.want {
            return Some(format!("{} and {} powers, wanted {:?}", ga.len(), hb.len(), k.want));
        }
        if ga[0] != g || hb[0] != h {
            return Some("does not start at the generators".into());
        }
        for (i, w) in ga.windows(2).enumerate() {
            if e(&w[1], &h) != e(&w[0], h_alpha) {
                return Some(format!("element {} of the first group is not the next power of the exponent in h_alpha", i + 1));
            }
        }
        for (i, w) in hb.windows(2).enumerate() {
            if e(&g, &w[1]) != e(g_beta, &w[0]) {
                return Some(format!("element {} of the second group is not the next power of the exponent in g_beta", i + 1));
            }
        }
        secrets.push(e(&g, h_alpha));
        secrets.push(e(g_beta, &h));
        if let Some((c1, c2)) = &k.cks {
            let even = |i: usize| 2 * i;
            if c1.len() != (hb.len() + 1) / 2 || c2.len() != (ga.len() + 1) / 2 {
                return Some(format!("commitment keys of {} and {} elements from {} and {} powers", c1.len(), c2.len(), hb.len(), ga.len()));
            }
            if (0..c1.len()).any(|i| c1[i] != hb[even(i)]) || (0..c2.len()).any(|i| c2[i] != ga[even(i)]) {
                return Some("the commitment keys are not the even powers".into());
            }
        }
        if let Some(v) = &k.vkey {
            if (v.0, v.1, v.2, v.3) != (g, h, *g_beta, *h_alpha) {
                return Some("the verification key is not the one of the reference string".into());
            }
        }
    } else if let Some(v) = &k.vkey {
        if (v.0, v.1) != (g, h) {
            return Some("the verification key does not hold the generators".into());
        }
        secrets.push(e(&g, &v.3));
        secrets.push(e(&v.2, &h));
    }
    if let Some(p) = &k.kzg {
        if p.len() != k.kzg_want {
            return Some(format!("{} powers for polynomials, wanted {}", p.len(), k.kzg_want));
        }
        let h_alpha = k.vkey.as_ref().map(|v| v.3)?;
        let p: Vec<P::G1> = p.iter().map(|x| (*x).into()).collect();
        if p[0] != g {
            return Some("the powers for polynomials do not start at the generator".into());
        }
        for (i, w) in p.windows(2).enumerate() {
            if e(&w[1], &h) != e(&w[0], &h_alpha) {
                return Some(format!("power {} for polynomials is not the next power of the exponent in h_alpha", i + 1));
            }
        }
    }
    if (k.free1.len(), k.free2.len()) != k.free_want {
        return Some(format!("{} and {} key elements, wanted {:?}", k.free1.len(), k.free2.len(), k.free_want));
    }
    if let Some(f) = relation::<P>(k) {
        return Some(f);
    }
    // Elements without a relation: none trivial, none equal, inverse or double of another, and no
    // geometric progression.
    let mut all: Vec<PairingOutput<P>> = k.free1.iter().map(|x| e(x, &h)).chain(k.free2.iter().map(|x| e(&g, x))).collect();
    if k.free1.len() > 2 && e(&k.free1[2], &h) == e(&k.free1[1], &h) + e(&k.free1[1], &h) - e(&k.free1[0], &h) {
        return Some("the key elements form a progression".into());
    }
    all.extend(secrets.iter().cloned());
    for (i, x) in all.iter().enumerate() {
        if x.is_zero() || *x == t0 {
            return Some("a secret or key element is trivial".into());
        }
        for y in &all[..i] {
            if x == y || (*x + *y).is_zero() || *x == *y + *y || *y == *x + *x {
                return Some("two secrets or key elements are related".into());
            }
        }
    }
    None
}

/// `setup <kind/engine> <n> <m> <seed> <pool> <piece>`
fn setup<P: Eng>(o: &[String]) {
    let (kind, _) = split(word(o, 1));
    let (n, m, seed, pool, piece) = (num(o, 2) as usize, num(o, 3) as usize, num(o, 4), num(o, 5), num(o, 6) as usize);
    let n = if kind.contains("ariate") || kind == "kzg" { n } else { n.max(1) };
    let label = format!("{} of size {n},{m} (pool {pool})", word(o, 1));
    let at = Pool::of(pool);
    let make = |seed: u64, piece: usize| restarting(|| at.run(|| flat(|| setup_of::<P, _>(kind, n, m, &mut Pieces::new(seed, piece)))));
    let k = match make(seed, 8) {
        Ok(k) => k,
        Err(e) => return violation("bad-setup", format!("{label}: {e}")),
    };
    probe("checked-structure");
    probe(&format!("setup-{kind}"));
    if let Some(f) = quiet(|| flaw(&k)) {
        return violation("bad-setup", format!("{label}: {f}"));
    }
    // The same stream, in other pieces, elsewhere; then other streams.
    match make(seed, piece) {
        Ok(x) if x.bytes == k.bytes => probe("checked-same-stream"),
        Ok(_) => violation("bad-setup", format!("{label}: the same randomness in pieces of {piece} gives another key")),
        Err(e) => violation("bad-setup", format!("{label}: fails with randomness in pieces of {piece}: {e}")),
    }
    match make(seed + 1, 8) {
        Ok(x) => {
            probe("checked-other-stream");
            if quiet(|| shared(&k, &x)) {
                violation("bad-setup", format!("{label}: keys from different randomness share a secret or key element"))
            }
        }
        Err(e) => violation("bad-setup", format!("{label}: {e}")),
    }
    event(&format!("{label}: key {:x}", hash_bytes(&k.bytes)));
}
fn shared<P: Eng>(a: &Keys<P>, b: &Keys<P>) -> bool {
    let secret = |k: &Keys<P>| k.vkey.map(|v| (v.2, v.3));
    if let (Some(x), Some(y)) = (secret(a), secret(b)) {
        if x.0 == y.0 || x.1 == y.1 {
            return true;
        }
    }
    a.free1.iter().any(|x| b.free1.contains(x)) || a.free2.iter().any(|x| b.free2.contains(x))
}
pub fn setups(p: &Plan) {
    simrt::arm_crashes(&crashes(p));
    let jobs = p
        .ops_named("setup")
        .cloned()
        .map(|o| {
            Box::new(move || {
                if split(word(&o, 1)).1 {
                    setup::<Bls>(&o)
                } else {
                    setup::<Toy>(&o)
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    concurrently(jobs);
    simrt::disarm_crashes();
}
