//! Inner products and commitments against independent oracles, computed concurrently by workers
//! that share or own thread pools and are aborted and restarted at arbitrary points.
use crate::ctx::*;
use crate::el::*;
use crate::fam::shaped;
use crate::plan::{num, word, Plan};
use crate::rng::{mix, SRng};
use crate::simrt::{self, quiet, SimCrash};
use crate::toy::Toy;
use crate::world::{guarded, Pool};
use ark_bls12_381::{g1, g2, Bls12_381 as Bls, Fr};
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment,
};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::short_weierstrass::Projective;
use ark_ff::{Field, One, Zero};
use ark_inner_products::{cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Runs every job on a simulated thread of its own and waits for all of them.
pub fn concurrently(jobs: Vec<Box<dyn FnOnce() + Send>>) {
    let hs: Vec<_> = jobs
        .into_iter()
        .map(|j| {
            std::thread::spawn(move || {
                simrt::harness_thread();
                j()
            })
        })
        .collect();
    for h in hs {
        if let Err(e) = h.join() {
            if !e.is::<SimCrash>() {
                violation("harness-panic", ctx().panic.clone());
            }
        }
    }
}
/// Runs `f` until it completes, however often it is aborted.
pub fn restarting<T>(mut f: impl FnMut() -> T) -> T {
    loop {
        match catch_unwind(AssertUnwindSafe(&mut f)) {
            Ok(x) => return x,
            Err(e) if e.is::<SimCrash>() => fault("worker-restart"),
            Err(e) => resume_unwind(e),
        }
    }
}

/// The element with logarithm `x`, in a representation that is not the canonical one.
fn of_mixed<P: Eng, T: El<P>>(x: &Fr, k: &Fr) -> T {
    T::of(&(*x * k.inverse().unwrap())).times(k)
}
fn logs<P: Eng>(r: &mut SRng, n: usize, shape: usize, side: usize) -> Vec<Fr> {
    shaped::<P, Fr>(r, n, shape, side)
}
fn els<P: Eng, T: El<P>>(r: &mut SRng, l: &[Fr]) -> Vec<T> {
    l.iter().map(|x| if r.chance(1, 3) { of_mixed(x, &rnz(r)) } else { T::of(x) }).collect()
}
fn dot(a: &[Fr], b: &[Fr]) -> Fr {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}

pub const PRODUCTS: &[&str] = &["pairing", "multiexp-g1", "multiexp-g2", "scalar", "multi-pairing", "sipp", "sipp-coeffs"];

/// One product: `product <kind/engine> <n> <m> <shape> <seed> <pool>`
fn product<P: Eng>(kind: &str, o: &[String]) {
    let (n, m, shape, seed, pool) = (num(o, 2) as usize, num(o, 3) as usize, num(o, 4) as usize, num(o, 5), Pool::of(num(o, 6)));
    let label = format!("{} of {n} and {m} elements (pool {}, {})", word(o, 1), num(o, 6), crate::fam::SHAPES[shape % crate::fam::SHAPES.len()]);
    let r = &mut SRng::new(seed);
    let (la, lb) = (logs::<P>(r, n, shape, 0), logs::<P>(r, m, shape, 1));
    let lr = logs::<P>(r, n, mix(&[seed, 7]) as usize, 0);
    let r2 = SRng::new(mix(&[seed, 5]));
    let f = |what: &str, ok: bool| {
        probe(&format!("checked-{kind}"));
        event(&format!("{label}: {what}"));
        if !ok {
            violation("wrong-product", format!("{label}: {what}"));
        }
    };
    fn judge<T: PartialEq>(f: impl Fn(&str, bool), same: bool, want: T, got: Result<Result<T, String>, String>) {
        match (same, got) {
            (true, Ok(Ok(x))) => f("compared", x == want),
            (true, Ok(Err(e))) => f(&format!("answered with an error: {e}"), false),
            (false, Ok(Err(_))) => f("different lengths refused", true),
            (false, Ok(Ok(_))) => f("different lengths answered with a value", false),
            (_, Err(p)) => f(&format!("panicked: {p}"), false),
        }
    }
    macro_rules! ip {
        ($ip:ty, $l:ty, $r:ty, $want:expr) => {{
            let (a, b): (Vec<$l>, Vec<$r>) = quiet(|| (els::<P, $l>(&mut r2.clone(), &la), els::<P, $r>(&mut r2.clone(), &lb)));
            let want = quiet(|| $want);
            let got = restarting(|| pool.run(|| guarded(|| <$ip>::inner_product(&a, &b).map_err(|e| e.to_string()))));
            quiet(|| judge(f, n == m, want, got));
        }};
    }
    type G1<P> = <P as Pairing>::G1;
    type G2<P> = <P as Pairing>::G2;
    match kind {
        "pairing" => ip!(PairingInnerProduct<P>, G1<P>, G2<P>, P::gt(&dot(&la, &lb))),
        "multiexp-g1" => ip!(MultiexponentiationInnerProduct<G1<P>>, G1<P>, Fr, <G1<P> as El<P>>::of(&dot(&la, &lb))),
        "multiexp-g2" => ip!(MultiexponentiationInnerProduct<G2<P>>, G2<P>, Fr, <G2<P> as El<P>>::of(&dot(&la, &lb))),
        "scalar" => ip!(ScalarInnerProduct<Fr>, Fr, Fr, dot(&la, &lb)),
        "multi-pairing" => {
            let b = &lb[..n.min(m)];
            let a = &la[..n.min(m)];
            let (x, y): (Vec<G1<P>>, Vec<G2<P>>) = quiet(|| (els::<P, _>(&mut r2.clone(), a), els::<P, _>(&mut r2.clone(), b)));
            let want = quiet(|| P::gt(&dot(a, b)));
            let got = restarting(|| pool.run(|| guarded(|| cfg_multi_pairing::<P>(&x, &y).ok_or("none".to_string()))));
            quiet(|| judge(f, true, want, got));
        }
        "sipp" | "sipp-coeffs" => {
            let k = n.min(m);
            let (a, b, c) = (&la[..k], &lb[..k], &lr[..k]);
            let (x, y): (Vec<P::G1Affine>, Vec<P::G2Affine>) = quiet(|| (els::<P, _>(&mut r2.clone(), a), els::<P, _>(&mut r2.clone(), b)));
            let plain = kind == "sipp";
            let want = quiet(|| P::gt(&a.iter().zip(b).zip(c).map(|((a, b), c)| *a * b * if plain { Fr::one() } else { *c }).sum()));
            let got = restarting(|| {
                pool.run(|| {
                    guarded(|| {
                        Ok::<_, String>(if plain {
                            ark_sipp::product_of_pairings::<P>(&x, &y)
                        } else {
                            ark_sipp::product_of_pairings_with_coeffs::<P>(&x, &y, c)
                        })
                    })
                })
            });
            quiet(|| judge(f, true, want, got));
        }
        _ => panic!("harness: product {kind}"),
    }
}

pub fn split(w: &str) -> (&str, bool) {
    let (k, e) = w.split_once('/').unwrap_or((w, "toy"));
    (k, e != "toy")
}

pub fn products(p: &Plan) {
    let crashes: Vec<u64> = p.ops_named("crash").map(|o| num(o, 1)).collect();
    simrt::arm_crashes(&crashes);
    let jobs = p
        .ops_named("product")
        .cloned()
        .map(|o| {
            Box::new(move || {
                let (k, bls) = split(word(&o, 1));
                if bls {
                    product::<Bls>(k, &o)
                } else {
                    product::<Toy>(k, &o)
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    concurrently(jobs);
    simrt::disarm_crashes();
}

// ------------------------------------------------------------------------------------ Commitments

pub const COMMITMENTS: &[&str] = &["afgho-g1", "afgho-g2", "pedersen-g1", "pedersen-g2", "identity-f", "identity-g1", "identity-gt"];

/// A scheme with an independent way to build its keys, messages and commitments from logarithms.
pub trait Scheme<P: Eng>: DoublyHomomorphicCommitment<Scalar = Fr, Key: Send + Sync, Message: Send + Sync, Output: Send + Sync> {
    fn key(x: &Fr) -> Self::Key;
    fn msg(x: &Fr) -> Self::Message;
    fn com(k: &[Fr], m: &[Fr]) -> Self::Output;
    /// The commitment ignores the key and has no length of its own.
    const IDENTITY: bool = false;
}
impl<P: Eng> Scheme<P> for AFGHOCommitmentG1<P> {
    fn key(x: &Fr) -> P::G2 {
        El::<P>::of(x)
    }
    fn msg(x: &Fr) -> P::G1 {
        El::<P>::of(x)
    }
    fn com(k: &[Fr], m: &[Fr]) -> PairingOutput<P> {
        P::gt(&dot(k, m))
    }
}
impl<P: Eng> Scheme<P> for AFGHOCommitmentG2<P> {
    fn key(x: &Fr) -> P::G1 {
        El::<P>::of(x)
    }
    fn msg(x: &Fr) -> P::G2 {
        El::<P>::of(x)
    }
    fn com(k: &[Fr], m: &[Fr]) -> PairingOutput<P> {
        P::gt(&dot(k, m))
    }
}
macro_rules! ped {
    ($g:ty, $e:ty) => {
        impl Scheme<$e> for PedersenCommitment<$g> {
            fn key(x: &Fr) -> $g {
                El::<$e>::of(x)
            }
            fn msg(x: &Fr) -> Fr {
                *x
            }
            fn com(k: &[Fr], m: &[Fr]) -> $g {
                El::<$e>::of(&dot(k, m))
            }
        }
    };
}
ped!(crate::toy::TG1, Toy);
ped!(crate::toy::TG2, Toy);
ped!(Projective<g1::Config>, Bls);
ped!(Projective<g2::Config>, Bls);
impl<P: Eng, T> Scheme<P> for IdentityCommitment<T, Fr>
where
    T: El<P> + Default + Eq + std::ops::Add<T, Output = T> + std::ops::MulAssign<Fr>,
{
    fn key(_: &Fr) -> HomomorphicPlaceholderValue {
        HomomorphicPlaceholderValue
    }
    fn msg(x: &Fr) -> T {
        T::of(x)
    }
    fn com(_: &[Fr], m: &[Fr]) -> IdentityOutput<T> {
        IdentityOutput(m.iter().map(|x| T::of(x)).collect())
    }
    const IDENTITY: bool = true;
}

#[macro_export]
macro_rules! with_scheme {
    ($P:ty, $kind:expr, $f:ident ( $($arg:expr),* )) => {
        match $kind {
            "afgho-g1" => $f::<$P, AFGHOCommitmentG1<$P>>($($arg),*),
            "afgho-g2" => $f::<$P, AFGHOCommitmentG2<$P>>($($arg),*),
            "pedersen-g1" => $f::<$P, PedersenCommitment<<$P as Pairing>::G1>>($($arg),*),
            "pedersen-g2" => $f::<$P, PedersenCommitment<<$P as Pairing>::G2>>($($arg),*),
            "identity-f" => $f::<$P, IdentityCommitment<Fr, Fr>>($($arg),*),
            "identity-g1" => $f::<$P, IdentityCommitment<<$P as Pairing>::G1, Fr>>($($arg),*),
            "identity-gt" => $f::<$P, IdentityCommitment<PairingOutput<$P>, Fr>>($($arg),*),
            k => panic!("harness: commitment {k}"),
        }
    };
}

/// One scheme: `commit <kind/engine> <n> <shape> <seed> <pool>`
fn commit<P: Eng, C: Scheme<P>>(o: &[String]) {
    let (n, shape, seed, pool) = (num(o, 2) as usize, num(o, 3) as usize, num(o, 4), Pool::of(num(o, 5)));
    let label = format!("{} of {n} elements (pool {}, {})", word(o, 1), num(o, 5), crate::fam::SHAPES[shape % crate::fam::SHAPES.len()]);
    let r = &mut SRng::new(seed);
    let keyl = |r: &mut SRng| -> Vec<Fr> { (0..n).map(|_| rnz(r)).collect() };
    let (k1, k2) = (keyl(r), keyl(r));
    let (m1, m2) = (logs::<P>(r, n, shape, 0), logs::<P>(r, n, shape, 1));
    let x = rnz(r);
    let keys = |l: &[Fr]| quiet(|| l.iter().map(|x| C::key(x)).collect::<Vec<C::Key>>());
    let msgs = |l: &[Fr]| quiet(|| l.iter().map(|x| C::msg(x)).collect::<Vec<C::Message>>());
    let com = |k: &[C::Key], m: &[C::Message]| restarting(|| pool.run(|| guarded(|| quietly_err(C::commit(k, m)))));
    let ver = |k: &[C::Key], m: &[C::Message], c: &C::Output| {
        restarting(|| pool.run(|| guarded(|| quietly_err(C::verify(k, m, c)))))
    };
    let bad = |what: String| violation("wrong-commitment", format!("{label}: {what}"));
    let ok = |what: &str| {
        probe(&format!("checked-{what}"));
        event(&format!("{label}: {what}"));
    };
    macro_rules! value {
        ($e:expr, $what:expr) => {
            match $e {
                Ok(Ok(c)) => c,
                Ok(Err(e)) => return bad(format!("{}: error {e}", $what)),
                Err(p) => return bad(format!("{}: panic {p}", $what)),
            }
        };
    }
    let same = |a: &C::Output, b: &C::Output| quiet(|| enc(a) == enc(b) && a == b);
    let (ck1, ck2, mm1, mm2) = (keys(&k1), keys(&k2), msgs(&m1), msgs(&m2));
    // Exactness.
    let c11 = value!(com(&ck1, &mm1), "commit");
    if !same(&c11, &quiet(|| C::com(&k1, &m1))) {
        return bad("the commitment is not the inner product of key and message".into());
    }
    ok("commit-exact");
    if value!(ver(&ck1, &mm1, &c11), "verify") != true {
        return bad("a commitment does not open to its own message".into());
    }
    ok("opens");
    if n > 0 {
        let i = r.below(n);
        let mut other = m1.clone();
        other[i] += rnz(r);
        if value!(ver(&ck1, &msgs(&other), &c11), "verify another message") {
            return bad(format!("opens to a message that differs in element {i}"));
        }
        ok("other-message-refused");
        // Two elements exchanged: the sum of the elements stays the same.
        let j = r.below(n);
        if m1[i] != m1[j] {
            let mut other = m1.clone();
            other.swap(i, j);
            if value!(ver(&ck1, &msgs(&other), &c11), "verify a permuted message") {
                return bad(format!("opens to a message with elements {i} and {j} exchanged"));
            }
            ok("permuted-message-refused");
        }
        if !C::IDENTITY {
            if m1[i] != Fr::zero() {
                let mut other = k1.clone();
                other[i] += rnz(r);
                if value!(ver(&keys(&other), &mm1, &c11), "verify under another key") {
                    return bad(format!("opens under a key that differs in element {i}"));
                }
                ok("other-key-refused");
            }
            // Only a prefix or suffix of the message agrees.
            if n > 1 && m1[0] != Fr::zero() {
                let mut other = m1.clone();
                other[0] = Fr::zero();
                if value!(ver(&ck1, &msgs(&other), &c11), "verify without the first element") {
                    return bad("opens to a message without its first element".into());
                }
            }
        }
        let other = quiet(|| C::com(&k1, &m1.iter().enumerate().map(|(j, m)| if j == i { *m + Fr::one() } else { *m }).collect::<Vec<_>>()));
        if value!(ver(&ck1, &mm1, &other), "verify another commitment") {
            return bad("another commitment opens to the message".into());
        }
        ok("other-commitment-refused");
        if C::IDENTITY && k1.len() == n {
            // A beginning of the message, and one with more behind it.
            let more: Vec<Fr> = m1.iter().cloned().chain([rnz(r)]).collect();
            let beginnings = [&m1[..n - 1], &m1[..n / 2], &m1[..0], &more[..]];
            for b in beginnings {
                let (short, long) = if b.len() < n { (b.len(), &m1) } else { (n, &more) };
                if long[short..].iter().all(|x| x.is_zero()) {
                    continue;
                }
                if let Ok(Ok(true)) = ver(&ck1, &mm1, &quiet(|| C::com(&k1, b))) {
                    return bad(format!("a commitment to {} elements opens to {n}", b.len()));
                }
                if let Ok(Ok(true)) = ver(&ck1, &msgs(b), &c11) {
                    return bad(format!("opens to a message of {} elements", b.len()));
                }
            }
            ok("other-length-refused");
        }
        if !C::IDENTITY {
            for (a, b) in [(n, n - 1), (n - 1, n), (0, n), (n, 0)] {
                match com(&ck1[..a], &mm1[..b]) {
                    Ok(Err(_)) => ok("length-mismatch-refused"),
                    Ok(Ok(_)) => return bad(format!("a message of {b} under a key of {a} elements was committed to")),
                    Err(p) => return bad(format!("a message of {b} under a key of {a} elements: panic {p}")),
                }
                match ver(&ck1[..a], &mm1[..b], &c11) {
                    Ok(Err(_)) => {}
                    v => return bad(format!("opening a message of {b} under a key of {a} elements: {v:?}")),
                }
            }
        }
    }
    // Homomorphisms.
    let c12 = value!(com(&ck1, &mm2), "commit");
    let c21 = value!(com(&ck2, &mm1), "commit");
    let msum: Vec<C::Message> = mm1.iter().zip(&mm2).map(|(a, b)| a.clone() + b.clone()).collect();
    let ksum: Vec<C::Key> = ck1.iter().zip(&ck2).map(|(a, b)| a.clone() + b.clone()).collect();
    let mut mscaled = mm1.clone();
    mscaled.iter_mut().for_each(|m| *m *= x);
    let mut kscaled = ck1.clone();
    kscaled.iter_mut().for_each(|k| *k *= x);
    let mut cscaled = c11.clone();
    cscaled *= x;
    let checks = [
        ("message sum", value!(com(&ck1, &msum), "commit"), c11.clone() + c12.clone(), true),
        ("message sum, other order", value!(com(&ck1, &msum), "commit"), c12 + c11.clone(), true),
        ("key sum", value!(com(&ksum, &mm1), "commit"), c11.clone() + c21, !C::IDENTITY),
        ("message multiple", value!(com(&ck1, &mscaled), "commit"), cscaled.clone(), true),
        ("key multiple", value!(com(&kscaled, &mm1), "commit"), cscaled, !C::IDENTITY),
    ];
    for (what, a, b, applies) in checks {
        if applies && !same(&a, &b) {
            return bad(format!("not homomorphic: {what}"));
        }
        if applies && value!(ver(if what.starts_with("key sum") { &ksum } else if what.starts_with("key") { &kscaled } else { &ck1 }, if what.starts_with("message sum") { &msum } else if what.starts_with("message") { &mscaled } else { &mm1 }, &b), "verify a combination") != true {
            return bad(format!("a combined commitment does not open: {what}"));
        }
    }
    ok("homomorphic");
    // Keys from setup.
    let s = guarded(|| quietly_err(C::setup(&mut SRng::new(seed + 1), n)));
    let s = value!(s, "setup");
    if s.len() != n {
        return bad(format!("setup for {n} returned {} key elements", s.len()));
    }
    let c = value!(com(&s, &mm1), "commit under a generated key");
    if value!(ver(&s, &mm1, &c), "verify") != true {
        return bad("a commitment under a generated key does not open".into());
    }
    if !C::IDENTITY && n > 0 && m1.iter().any(|m| !m.is_zero()) && value!(ver(&ck1, &mm1, &c), "verify") {
        return bad("a commitment opens under a key it was not made with".into());
    }
    ok("generated-key");
}
fn quietly_err<T, E: ToString>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn restarting_inline<T>(f: impl FnMut() -> T) -> T {
    restarting(f)
}

pub fn commitments(p: &Plan) {
    let crashes: Vec<u64> = p.ops_named("crash").map(|o| num(o, 1)).collect();
    simrt::arm_crashes(&crashes);
    let jobs = p
        .ops_named("commit")
        .cloned()
        .map(|o| {
            Box::new(move || {
                let (k, bls) = split(word(&o, 1));
                if bls {
                    with_scheme!(Bls, k, commit(&o))
                } else {
                    with_scheme!(Toy, k, commit(&o))
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    concurrently(jobs);
    simrt::disarm_crashes();
}

// ------------------------------------------------------------- Commitments merged across nodes

/// What a worker of the merge scenario contributes, and what the merged result must be.
pub struct Merge {
    pub parts: usize,
    /// Commitment to part i, encoded.
    pub part: Box<dyn Fn(usize) -> Result<Vec<u8>, String> + Send + Sync>,
    /// Adds an encoded commitment to an accumulated one.
    pub add: Box<dyn Fn(Option<&[u8]>, &[u8]) -> Result<Vec<u8>, String> + Send + Sync>,
    pub whole: Result<Vec<u8>, String>,
    pub label: String,
}
/// `merge <kind/engine> <n> <parts> <shape> <seed> <how>`; how 0: by elements (same key), 1: by keys,
/// 2: by ranges of key and message.
fn merge<P: Eng, C: Scheme<P>>(o: &[String]) -> Merge
where
    C::Output: 'static,
    C: 'static,
{
    let (n, parts, shape, seed) = ((num(o, 2) as usize).max(1), (num(o, 3) as usize).max(1), num(o, 4) as usize, num(o, 5));
    let how = if C::IDENTITY { 0 } else { num(o, 6) % 3 };
    let parts = if how == 2 { parts.min(n) } else { parts };
    let r = &mut SRng::new(seed);
    let k: Vec<Fr> = (0..n).map(|_| rnz(r)).collect();
    let m = logs::<P>(r, n, shape, 0);
    let one = |r: &mut SRng, v: &[Fr]| -> Vec<Vec<Fr>> {
        // Random summands of v.
        let mut out: Vec<Vec<Fr>> = (1..parts).map(|_| (0..n).map(|_| rnz(r)).collect()).collect();
        let last = (0..n).map(|i| v[i] - out.iter().map(|p| p[i]).sum::<Fr>()).collect();
        out.push(last);
        out
    };
    let shares: Vec<(Vec<Fr>, Vec<Fr>)> = match how {
        0 => one(r, &m).into_iter().map(|m| (k.clone(), m)).collect(),
        1 => one(r, &k).into_iter().map(|k| (k, m.clone())).collect(),
        _ => {
            // Contiguous ranges of random length.
            let mut cuts: Vec<usize> = (0..n - 1).collect();
            for i in (1..cuts.len()).rev() {
                cuts.swap(i, r.below(i + 1));
            }
            let mut cuts: Vec<usize> = cuts[..parts - 1].iter().map(|c| c + 1).collect();
            cuts.sort();
            cuts.insert(0, 0);
            cuts.push(n);
            cuts.windows(2).map(|w| (k[w[0]..w[1]].to_vec(), m[w[0]..w[1]].to_vec())).collect()
        }
    };
    let keys = |l: &[Fr]| l.iter().map(|x| C::key(x)).collect::<Vec<C::Key>>();
    let msgs = |l: &[Fr]| l.iter().map(|x| C::msg(x)).collect::<Vec<C::Message>>();
    let shares: Vec<(Vec<C::Key>, Vec<C::Message>)> = quiet(|| shares.iter().map(|(k, m)| (keys(k), msgs(m))).collect());
    let whole = guarded(|| quietly_err(C::commit(&quiet(|| keys(&k)), &quiet(|| msgs(&m))))).and_then(|x| x);
    let want = quiet(|| C::com(&k, &m));
    let whole = whole.map(|w| quiet(|| if enc(&w) == enc(&want) { enc(&w) } else { vec![] }));
    let label = format!("{} of {n} elements in {parts} parts, split by {}", word(o, 1), ["message summands", "key summands", "ranges"][how as usize]);
    Merge {
        parts,
        part: Box::new(move |i| {
            let (k, m) = &shares[i];
            guarded(|| quietly_err(C::commit(k, m))).and_then(|x| x).map(|c| quiet(|| enc(&c)))
        }),
        add: Box::new(|a, b| {
            let b: C::Output = quiet(|| dec_trusted(b)).ok_or("undecodable")?;
            let s = match a {
                Some(a) => {
                    let a: C::Output = quiet(|| dec_trusted(a)).ok_or("undecodable")?;
                    guarded(|| a + b)?
                }
                None => b,
            };
            Ok(quiet(|| enc(&s)))
        }),
        whole,
        label,
    }
}
pub fn merge_of(o: &[String]) -> Merge {
    let (k, bls) = split(word(o, 1));
    if bls {
        with_scheme!(Bls, k, merge(o))
    } else {
        with_scheme!(Toy, k, merge(o))
    }
}
