//! Protocol families: one uniform, byte-level view of every prover/verifier pair of the repository.
//! All protocol work (setup, commit, prove, verify) is done by the repository's own code; this file
//! only decides inputs, translates values to and from bytes, and builds forgeries.
use crate::digests::{logged, Query};
use crate::el::*;
use crate::rng::{mix, SRng};
use crate::simrt::{fine, quiet};
use ark_bls12_381::Fr;
use ark_ff::{FftField, Field, One, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

pub trait Wire<P: Eng>: Elems<P> + CanonicalSerialize + CanonicalDeserialize + Clone + 'static {}
impl<P: Eng, T: Elems<P> + CanonicalSerialize + CanonicalDeserialize + Clone + 'static> Wire<P> for T {}

/// Size of a session: two dimensions, their meaning depends on the family.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Size {
    pub a: usize,
    pub b: usize,
}
impl Size {
    pub fn pack(&self) -> u64 {
        (self.a | self.b << 24) as u64
    }
    pub fn unpack(x: u64) -> Size {
        Size { a: (x & 0xff_ffff) as usize, b: (x >> 24) as usize & 0xffff }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    VKey,
    Stmt,
    Proof,
}
pub const PARTS: [Part; 3] = [Part::VKey, Part::Stmt, Part::Proof];

/// A forged message: what the verifier holds and receives.
#[derive(Clone)]
pub struct Forged {
    pub vkey: Vec<u8>,
    pub stmt: Vec<u8>,
    pub proof: Vec<u8>,
    pub what: String,
    /// The known finding this attack reproduces, if any.
    pub finding: Option<&'static str>,
}

/// A tampering instruction (everything but the session it applies to).
#[derive(Clone, Debug)]
pub enum Tamper {
    Alter { part: Part, idx: usize, alt: Alt },
    Two { part: Part, idx: (usize, usize), alt: (Alt, Alt) },
    Reshape { part: Part, which: usize, op: usize, arg: usize },
    /// Elements lo..hi of the part are taken from the other session.
    Splice { part: Part, lo: usize, hi: usize },
    /// Two elements of one kind change places; `n` picks the second.
    Swap { part: Part, idx: usize, n: usize },
    /// What is added to one element is taken from another of its kind, perhaps in the other part
    /// and with a challenge as weight.
    Trade { part: (Part, Part), idx: usize, n: usize, amount: u64, weight: usize },
    /// An element of the statement and one of the proof are made equal.
    Cross { idx: usize, n: usize, to_stmt: bool },
    /// Proof elements lo..hi, and perhaps one of the statement, become identities.
    Wipe { stmt: Option<usize>, lo: usize, hi: usize },
    /// Another claimed result, which is wrong whatever the vectors are: altered alone, with proof
    /// elements lo..hi set to identities, or traded against proof element `n` of its kind.
    Claim { n: usize, how: ClaimHow },
}
#[derive(Clone, Debug)]
pub enum ClaimHow {
    Alone(Alt),
    Wiped(Alt, usize, usize),
    Traded { n: usize, amount: u64, weight: usize },
}

pub trait FamT: Sync + Send + 'static {
    type P: Eng;
    type Key: Wire<Self::P>;
    type VKey: Wire<Self::P>;
    type Wit: Wire<Self::P>;
    type Stmt: Wire<Self::P>;
    type Proof: CanonicalSerialize + CanonicalDeserialize;
    /// The proof's elements, in wire order.
    type Mirror: Wire<Self::P>;
    const NAME: &'static str;
    /// Soundness property the family belongs to.
    const ATTACKS: &'static [&'static str] = &[];
    /// Attacks that are known to succeed, with the finding's name.
    const FINDINGS: &'static [&'static str] = &[];
    /// Statement elements are traded without challenge weights only.
    const PLAIN_STATEMENT_TRADES: bool = false;
    /// A request that must be refused may be answered with a panic (documented assertion).
    const REFUSES_BY_PANIC: bool = false;

    fn pick_size(r: &mut SRng, level: u32) -> Size {
        Size { a: pick_log(r, level), b: 0 }
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String>;
    fn vkey(k: &Self::Key) -> Self::VKey;
    fn witness(k: &Self::Key, rng: &mut SRng, size: Size, shape: usize) -> Self::Wit;
    /// The honest statement for a witness, computed with the repository's commitment code.
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String>;
    /// The honest prover (with all its own checks).
    fn prove(k: &Self::Key, w: &Self::Wit, s: &Self::Stmt) -> Result<Self::Proof, String>;
    /// The prover without the checks an honest one makes first.
    fn prove_unchecked(k: &Self::Key, w: &Self::Wit, s: &Self::Stmt) -> Result<Self::Proof, String> {
        Self::prove(k, w, s)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String>;
    /// May this element take another value without making the statement or proof wrong?
    fn exempt(_size: Size, _part: Part, _idx: usize) -> bool {
        false
    }
    /// Statement elements whose change alone always makes the statement false, whatever the witness.
    fn claims(_s: &mut Self::Stmt) -> Vec<usize> {
        vec![]
    }
    /// Was the key made with elements that make parts of the statement meaningless?
    fn special_key(_size: Size) -> bool {
        false
    }
    /// The same for proof elements, where it depends on the proof itself.
    fn exempt_in(_m: &mut Self::Mirror, _idx: usize) -> bool {
        false
    }
    /// The prover's answer to a request it must refuse (None: not applicable).
    fn refusal(_kind: usize, _rng: &mut SRng, _k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        None
    }
    fn attack(_kind: &str, _rng: &mut SRng, _size: Size, _k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt, _m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        None
    }
    /// For each proof element, how many of the verifier's challenges come after it (0: unspecified).
    fn later_challenges(_m: &mut Self::Mirror) -> Vec<usize> {
        vec![]
    }
    /// How many challenges come after the statement (0: unspecified).
    fn after_statement(_size: Size) -> usize {
        0
    }
}

pub fn pick_log(r: &mut SRng, level: u32) -> usize {
    match level {
        0 => r.weighted(&[2, 3, 4, 4, 2]),
        1 => r.weighted(&[2, 3, 4, 4, 3, 2, 1]),
        2 => r.weighted(&[1, 1, 1, 2, 3, 4, 4, 3, 2]),
        _ => r.weighted(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 2, 1]),
    }
}

pub const SHAPES: &[&str] = &["random", "zeros", "equal", "sparse", "ones", "first-only", "last-only", "left-zero", "right-zero", "small", "negated-pairs", "scalar-zero", "scalar-one", "scalar-minus-one", "edge", "repeated-half", "mirrored", "both-equal", "half-zero", "odd-zero", "scalar-root", "scalar-short"];
/// Shapes whose vectors are random throughout; only public scalars are special.
pub fn generic(shape: usize) -> bool {
    shape % SHAPES.len() == 0 || special(shape).is_some()
}
/// The special public scalar of a shape.
pub fn special(shape: usize) -> Option<Fr> {
    match SHAPES[shape % SHAPES.len()] {
        "scalar-zero" => Some(Fr::zero()),
        "scalar-one" => Some(Fr::one()),
        "scalar-minus-one" => Some(-Fr::one()),
        "scalar-root" => Some(root(8)),
        "scalar-short" => Some(Fr::from(u64::MAX) + Fr::one()),
        _ => None,
    }
}
pub fn special_shapes() -> Vec<usize> {
    (0..SHAPES.len()).filter(|s| special(*s).is_some()).collect()
}

/// A root of unity of the given order.
fn root(order: u64) -> Fr {
    <Fr as FftField>::get_root_of_unity(order).expect("root of unity")
}
/// Scalars at the borders of machine words, of the field, and in small subgroups.
pub fn edge(r: &mut SRng) -> Fr {
    let two = |k: u64| Fr::from(2u64).pow([k]);
    let one = Fr::one();
    let half = Fr::from(2u64).inverse().expect("two");
    match r.below(12) {
        0 => two(*r.pick(&[8, 16, 31, 32, 63, 64, 127, 128, 192, 252, 253, 254])),
        1 => two(*r.pick(&[8, 16, 31, 32, 63, 64, 127, 128, 192, 252, 253, 254])) - one,
        2 => two(*r.pick(&[32, 64, 128])) + one,
        3 => -Fr::from(1 + r.below(4) as u64),
        4 => half,
        5 => -half,
        6 => root(1 << r.below(6)),
        7 => root(1 << 32),
        8 => Fr::from(r.below(20) as u64),
        9 => Fr::from(r.u64()),
        10 => Fr::from(r.u64() as u128 * r.u64() as u128),
        _ => rnz(r),
    }
}

/// A vector in a given shape. `side` 0 is the left, 1 the right vector of a pair.
pub fn shaped<P: Eng, T: El<P>>(r: &mut SRng, n: usize, shape: usize, side: usize) -> Vec<T> {
    let rnd = |r: &mut SRng| T::of(&rnz(r));
    let zero = T::of(&Fr::from(0u64));
    match SHAPES[shape % SHAPES.len()] {
        "zeros" => vec![zero; n],
        "equal" => vec![rnd(r); n],
        "sparse" => (0..n).map(|_| if r.chance(1, 3) { rnd(r) } else { zero }).collect(),
        "ones" => vec![T::of(&Fr::from(1u64)); n],
        "first-only" => (0..n).map(|i| if i == 0 { rnd(r) } else { zero }).collect(),
        "last-only" => (0..n).map(|i| if i + 1 == n { rnd(r) } else { zero }).collect(),
        "left-zero" if side == 0 => vec![zero; n],
        "right-zero" if side == 1 => vec![zero; n],
        "small" => (0..n).map(|_| T::of(&Fr::from(r.below(3) as u64))).collect(),
        "negated-pairs" => {
            let x: Fr = rnz(r);
            (0..n).map(|i| T::of(&if i % 2 == 0 { x } else { -x })).collect()
        }
        "edge" => (0..n).map(|_| T::of(&edge(r))).collect(),
        "repeated-half" => {
            let x: Vec<T> = (0..(n + 1) / 2).map(|_| rnd(r)).collect();
            (0..n).map(|i| x[i % x.len()]).collect()
        }
        "mirrored" => {
            let x: Vec<T> = (0..(n + 1) / 2).map(|_| rnd(r)).collect();
            (0..n).map(|i| x[i.min(n - 1 - i)]).collect()
        }
        // The same exponents on both sides
        "both-equal" => {
            let r = &mut SRng::new(n as u64);
            (0..n).map(|_| rnd(r)).collect()
        }
        "half-zero" => (0..n).map(|i| if (i < n / 2) == (side == 0) { rnd(r) } else { zero }).collect(),
        "odd-zero" => (0..n).map(|i| if i % 2 == 0 { rnd(r) } else { zero }).collect(),
        _ => (0..n).map(|_| rnd(r)).collect(),
    }
}

pub fn e2s<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

/// The byte-level interface.
pub trait Fam: Sync + Send {
    fn name(&self) -> String;
    fn pick_size(&self, r: &mut SRng, level: u32) -> Size;
    fn setup(&self, seed: u64, size: Size) -> Result<Vec<u8>, String>;
    fn vkey(&self, key: &[u8]) -> Vec<u8>;
    fn witness(&self, key: &[u8], seed: u64, size: Size, shape: usize) -> Vec<u8>;
    fn state(&self, key: &[u8], wit: &[u8]) -> Result<Vec<u8>, String>;
    fn prove(&self, key: &[u8], wit: &[u8], stmt: &[u8]) -> Result<Vec<u8>, String>;
    fn prove_unchecked(&self, key: &[u8], wit: &[u8], stmt: &[u8]) -> Result<Vec<u8>, String>;
    fn verify(&self, vkey: &[u8], stmt: &[u8], proof: &[u8]) -> Result<bool, String>;
    fn decodable(&self, proof: &[u8]) -> bool;
    /// Number of elements and of variable-length parts.
    fn shape_of(&self, part: Part, bytes: &[u8]) -> (usize, usize);
    fn exempt(&self, size: Size, part: Part, idx: usize) -> bool;
    fn special_key(&self, size: Size) -> bool;
    /// None if the instruction changes nothing or does not apply.
    fn tamper(&self, size: Size, t: &Tamper, vkey: &[u8], stmt: &[u8], proof: &[u8], foreign: &[u8]) -> Option<Forged>;
    /// The proof with the elements a verifier may ignore set to a fixed value.
    fn canon(&self, size: Size, proof: &[u8]) -> Vec<u8>;
    /// A witness that differs in one element, or a key that does.
    fn alter_wit(&self, wit: &[u8], idx: usize, alt: &Alt) -> Option<Vec<u8>>;
    fn alter_key(&self, key: &[u8], idx: usize, alt: &Alt) -> Option<Vec<u8>>;
    fn wit_len(&self, wit: &[u8]) -> usize;
    fn key_len(&self, key: &[u8]) -> usize;
    fn refusal(&self, kind: usize, seed: u64, key: &[u8], wit: &[u8], stmt: &[u8]) -> Option<(String, Result<(), String>)>;
    fn refuses_by_panic(&self) -> bool;
    fn attacks(&self) -> &'static [&'static str];
    fn findings(&self) -> &'static [&'static str];
    fn attack(&self, kind: &str, seed: u64, size: Size, key: &[u8], wit: &[u8], stmt: &[u8], proof: &[u8]) -> Option<Forged>;
    /// Are element i of proof `a` and element j of proof `b` equal?
    fn leaf_eq(&self, a: &[u8], i: usize, b: &[u8], j: usize) -> bool;
    /// Proof `a` with element j replaced by element i of `b`.
    fn put_from(&self, a: &[u8], j: usize, b: &[u8], i: usize) -> Option<Vec<u8>>;
    fn later_challenges(&self, proof: &[u8]) -> Vec<usize>;
    fn after_statement(&self, size: Size) -> usize;
    /// Encodes the proof with a stream and settings chosen by the caller (the I/O seam).
    fn rewrite(&self, proof: &[u8], w: &mut dyn std::io::Write, compress: bool) -> Result<usize, String>;
    /// Reads a proof from a stream and re-encodes it canonically; also the number of bytes announced.
    fn reread(&self, r: &mut dyn std::io::Read, compress: bool, validate: bool) -> Result<Vec<u8>, String>;
}

pub struct F<T>(pub std::marker::PhantomData<fn() -> T>);

fn mirror<T: FamT>(proof: &[u8]) -> Option<T::Mirror> {
    let m: T::Mirror = dec_trusted(proof)?;
    if enc(&m) == proof {
        Some(m)
    } else {
        None
    }
}

fn tamper_val<P: Eng, V: Wire<P>>(v: &mut V, foreign: Option<&mut V>, t: &Tamper) -> bool {
    match t {
        Tamper::Alter { idx, alt, .. } => alter(v, *idx, alt, foreign),
        Tamper::Two { idx, alt, .. } => {
            if idx.0 == idx.1 {
                return false;
            }
            alter(v, idx.0, &alt.0, None) && alter(v, idx.1, &alt.1, None)
        }
        Tamper::Reshape { which, op, arg, .. } => {
            let before = enc(v);
            reshape(v, *which, *op, *arg) && enc(v) != before
        }
        Tamper::Splice { lo, hi, .. } => {
            let Some(f) = foreign else { return false };
            let mine = leaves(v);
            let theirs = leaves(f);
            let mut changed = false;
            for i in *lo..(*hi).min(mine.len()).min(theirs.len()) {
                if mine[i].kind() == theirs[i].kind() && mine[i] != theirs[i] && put_leaf(v, i, &theirs[i]) {
                    changed = true;
                }
            }
            changed
        }
        _ => false,
    }
}
/// Values a verifier may derive from its hash answers.
pub fn challenge_values(answers: &[Vec<u8>]) -> Vec<Fr> {
    let mut v = vec![];
    for a in answers {
        v.extend(Fr::from_random_bytes(a));
        if a.len() >= 16 {
            v.push(Fr::from(u128::from_be_bytes(a[..16].try_into().unwrap())));
        }
        if let Ok(seed) = <[u8; 32]>::try_from(a.as_slice()) {
            use ark_ff::UniformRand;
            use rand_chacha::rand_core::SeedableRng;
            v.push(u128::rand(&mut rand_chacha::ChaChaRng::from_seed(seed)).into());
        }
    }
    v.retain(|x| !x.is_zero());
    v
}
/// The weight number `n`: one, minus one, or plus or minus a power of one of the challenges.
pub fn weight(challenges: &[Fr], n: usize) -> Fr {
    let sign = if n % 2 == 0 { Fr::one() } else { -Fr::one() };
    let n = n / 2;
    if n % 3 == 0 || challenges.is_empty() {
        return sign;
    }
    let c = challenges[(n / 3) % challenges.len()];
    let e = [1u64, 1, 2, 2][n / 3 / challenges.len() % 4];
    let x = c.pow([e]);
    sign * if n % 3 == 1 { x } else { x.inverse().unwrap() }
}

/// Tampering that may touch statement and proof at once.
fn tamper_both<T: FamT>(size: Size, t: &Tamper, s: &mut T::Stmt, m: &mut T::Mirror, challenges: &[Fr]) -> bool {
    let (ls, lm) = (leaves(s), leaves(m));
    let get = |p: Part| if p == Part::Stmt { &ls } else { &lm };
    // The n-th element of the kind of element `idx` of part `p`, in part `q`.
    let mate = |p: Part, idx: usize, q: Part, n: usize| -> Option<usize> {
        let k = get(p).get(idx)?.kind();
        let v: Vec<usize> = get(q).iter().enumerate().filter(|(j, l)| (p != q || *j != idx) && l.kind() == k).map(|x| x.0).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[n % v.len()])
        }
    };
    let mut put = |p: Part, i: usize, l: &Leaf<T::P>| -> bool {
        if p == Part::Stmt {
            // Statement elements that mean nothing stay as they are.
            !T::exempt(size, p, i) && put_leaf(s, i, l)
        } else {
            put_leaf(m, i, l)
        }
    };
    match t {
        Tamper::Swap { part, idx, n } => {
            let Some(j) = mate(*part, *idx, *part, *n) else { return false };
            let (a, b) = (get(*part)[*idx], get(*part)[j]);
            a != b && put(*part, *idx, &b) && put(*part, j, &a)
        }
        Tamper::Trade { part, idx, n, amount, weight: wt } => {
            let Some(j) = mate(part.0, *idx, part.1, *n) else { return false };
            // (Weighted trades between public inputs of an aggregate are a listed finding.)
            let w = if T::PLAIN_STATEMENT_TRADES && *part == (Part::Stmt, Part::Stmt) { weight(&[], *wt) } else { weight(challenges, *wt) };
            let d = Fr::from((*amount).max(1));
            let (a, b) = (plus_log(&get(part.0)[*idx], &d), plus_log(&get(part.1)[j], &(d * w)));
            put(part.0, *idx, &a) && put(part.1, j, &b)
        }
        Tamper::Cross { idx, n, to_stmt } => {
            let Some(j) = mate(Part::Stmt, *idx, Part::Proof, *n) else { return false };
            let (a, b) = (ls[*idx], lm[j]);
            a != b && if *to_stmt { put(Part::Stmt, *idx, &b) } else { put(Part::Proof, j, &a) }
        }
        Tamper::Wipe { stmt, lo, hi } => {
            let mut changed = false;
            for i in *lo..(*hi).min(lm.len()) {
                changed |= alter(m, i, &Alt::Zero, None);
            }
            if let Some(i) = stmt {
                if T::exempt(size, Part::Stmt, *i) || !alter(s, *i, &Alt::Zero, None) {
                    return false;
                }
                changed = true;
            }
            changed
        }
        Tamper::Claim { n, how } => {
            let c = T::claims(s);
            if c.is_empty() {
                return false;
            }
            let i = c[*n % c.len()];
            match how {
                ClaimHow::Alone(a) => alter(s, i, a, None),
                ClaimHow::Wiped(a, lo, hi) => {
                    for j in *lo..(*hi).min(lm.len()) {
                        alter(m, j, &Alt::Zero, None);
                    }
                    alter(s, i, a, None)
                }
                ClaimHow::Traded { n, amount, weight: wt } => {
                    let Some(j) = mate(Part::Stmt, i, Part::Proof, *n) else { return false };
                    let d = Fr::from((*amount).max(1));
                    let (a, b) = (plus_log(&ls[i], &d), plus_log(&lm[j], &(d * weight(challenges, *wt))));
                    put_leaf(s, i, &a) && put_leaf(m, j, &b)
                }
            }
        }
        _ => false,
    }
}
fn tamper_name(t: &Tamper) -> String {
    match t {
        Tamper::Swap { part, idx, .. } => format!("{part:?} element {idx} exchanged with another of its kind"),
        Tamper::Trade { part, idx, weight, .. } => format!("{:?} element {idx} traded against one of {:?} (weight {weight})", part.0, part.1),
        Tamper::Cross { idx, to_stmt, .. } => format!("Stmt element {idx} {} a proof element", if *to_stmt { "replaced by" } else { "copied to" }),
        Tamper::Wipe { stmt, lo, hi } => format!("Proof elements {lo}..{hi} set to identities{}", stmt.map(|i| format!(", Stmt element {i} too")).unwrap_or_default()),
        Tamper::Claim { how, .. } => match how {
            ClaimHow::Alone(a) => format!("claimed result altered ({})", ALT_NAMES[a.code().0]),
            ClaimHow::Wiped(a, lo, hi) => format!("claimed result altered ({}), proof elements {lo}..{hi} set to identities", ALT_NAMES[a.code().0]),
            ClaimHow::Traded { weight, .. } => format!("claimed result traded against a proof element (weight {weight})"),
        },
        Tamper::Alter { part, idx, alt } => format!("{part:?} element {idx} altered ({})", ALT_NAMES[alt.code().0]),
        Tamper::Two { part, idx, alt } => format!("{part:?} elements {} ({}) and {} ({}) altered", idx.0, ALT_NAMES[alt.0.code().0], idx.1, ALT_NAMES[alt.1.code().0]),
        Tamper::Reshape { part, which, op, .. } => format!("{part:?} list {which}: {}", RESHAPE_NAMES[*op % RESHAPES]),
        Tamper::Splice { part, lo, hi } => format!("{part:?} elements {lo}..{hi} taken from another session"),
    }
}

impl<T: FamT> Fam for F<T> {
    fn name(&self) -> String {
        format!("{}/{}", T::NAME, T::P::NAME)
    }
    fn pick_size(&self, r: &mut SRng, level: u32) -> Size {
        T::pick_size(r, level)
    }
    fn setup(&self, seed: u64, size: Size) -> Result<Vec<u8>, String> {
        let k = fine(|| T::setup(&mut SRng::new(seed), size))?;
        Ok(quiet(|| enc(&k)))
    }
    fn vkey(&self, key: &[u8]) -> Vec<u8> {
        let k: T::Key = quiet(|| dec_trusted(key)).expect("own key");
        let v = T::vkey(&k);
        quiet(|| enc(&v))
    }
    fn witness(&self, key: &[u8], seed: u64, size: Size, shape: usize) -> Vec<u8> {
        quiet(|| {
            let k: T::Key = dec_trusted(key).expect("own key");
            enc(&T::witness(&k, &mut SRng::new(seed), size, shape))
        })
    }
    fn state(&self, key: &[u8], wit: &[u8]) -> Result<Vec<u8>, String> {
        let (k, w): (T::Key, T::Wit) = quiet(|| (dec_trusted(key).expect("own key"), dec_trusted(wit).expect("own witness")));
        let s = fine(|| T::state(&k, &w))?;
        Ok(quiet(|| enc(&s)))
    }
    fn prove(&self, key: &[u8], wit: &[u8], stmt: &[u8]) -> Result<Vec<u8>, String> {
        let (k, w, s): (T::Key, T::Wit, T::Stmt) =
            quiet(|| (dec_trusted(key).expect("own key"), dec_trusted(wit).expect("own witness"), dec_trusted(stmt).expect("own statement")));
        let p = fine(|| T::prove(&k, &w, &s))?;
        Ok(quiet(|| enc(&p)))
    }
    fn prove_unchecked(&self, key: &[u8], wit: &[u8], stmt: &[u8]) -> Result<Vec<u8>, String> {
        let (k, w, s): (T::Key, T::Wit, T::Stmt) =
            quiet(|| (dec_trusted(key).expect("own key"), dec_trusted(wit).expect("own witness"), dec_trusted(stmt).expect("own statement")));
        let p = fine(|| T::prove_unchecked(&k, &w, &s))?;
        Ok(quiet(|| enc(&p)))
    }
    fn verify(&self, vkey: &[u8], stmt: &[u8], proof: &[u8]) -> Result<bool, String> {
        let (v, s): (T::VKey, T::Stmt) = quiet(|| (dec_trusted(vkey).expect("own key"), dec_trusted(stmt).expect("own statement")));
        let p: T::Proof = quiet(|| dec(proof)).ok_or("undecodable")?;
        fine(|| T::verify(&v, &s, &p))
    }
    fn decodable(&self, proof: &[u8]) -> bool {
        quiet(|| dec::<T::Proof>(proof).is_some())
    }
    fn shape_of(&self, part: Part, bytes: &[u8]) -> (usize, usize) {
        fn count<P: Eng, V: Wire<P>>(v: Option<V>) -> (usize, usize) {
            match v {
                Some(mut v) => (leaves(&mut v).len(), seq_count(&mut v)),
                None => (0, 0),
            }
        }
        quiet(|| match part {
            Part::VKey => count::<T::P, T::VKey>(dec_trusted(bytes)),
            Part::Stmt => count::<T::P, T::Stmt>(dec_trusted(bytes)),
            Part::Proof => count::<T::P, T::Mirror>(mirror::<T>(bytes)),
        })
    }
    fn exempt(&self, size: Size, part: Part, idx: usize) -> bool {
        T::exempt(size, part, idx)
    }
    fn special_key(&self, size: Size) -> bool {
        T::special_key(size)
    }
    fn tamper(&self, size: Size, t: &Tamper, vkey: &[u8], stmt: &[u8], proof: &[u8], foreign: &[u8]) -> Option<Forged> {
        let challenges = match t {
            Tamper::Trade { weight, .. } | Tamper::Claim { how: ClaimHow::Traded { weight, .. }, .. } if (weight / 2) % 3 != 0 => challenge_values(&with_log(|| self.verify(vkey, stmt, proof)).1),
            _ => vec![],
        };
        quiet(|| {
            if matches!(t, Tamper::Swap { .. } | Tamper::Trade { .. } | Tamper::Cross { .. } | Tamper::Wipe { .. } | Tamper::Claim { .. }) {
                let (mut s, mut m) = (dec_trusted::<T::Stmt>(stmt)?, mirror::<T>(proof)?);
                if !tamper_both::<T>(size, t, &mut s, &mut m, &challenges) {
                    return None;
                }
                let f = Forged { vkey: vkey.to_vec(), stmt: enc(&s), proof: enc(&m), what: tamper_name(t), finding: None };
                if f.stmt == stmt && !T::canon_differs(size, &f.proof, proof) {
                    return None;
                }
                return Some(f);
            }
            // Statement and key elements that mean nothing stay as they are; for the proof the
            // comparison of the canonical forms below decides.
            let (part, touched) = match t {
                Tamper::Alter { part, idx, .. } => (*part, vec![*idx]),
                Tamper::Two { part, idx, .. } => (*part, vec![idx.0, idx.1]),
                Tamper::Splice { part, lo, hi } => (*part, (*lo..*hi).collect()),
                Tamper::Reshape { part, .. } => (*part, vec![]),
                _ => return None,
            };
            if part != Part::Proof && touched.iter().any(|i| T::exempt(size, part, *i)) {
                return None;
            }
            let mut f = Forged { vkey: vkey.to_vec(), stmt: stmt.to_vec(), proof: proof.to_vec(), what: tamper_name(t), finding: None };
            let ok = match part {
                Part::VKey => {
                    let mut v: T::VKey = dec_trusted(vkey)?;
                    let mut fo: Option<T::VKey> = dec_trusted(foreign);
                    let ok = tamper_val(&mut v, fo.as_mut(), t);
                    f.vkey = enc(&v);
                    ok
                }
                Part::Stmt => {
                    let mut v: T::Stmt = dec_trusted(stmt)?;
                    let mut fo: Option<T::Stmt> = dec_trusted(foreign);
                    let ok = tamper_val(&mut v, fo.as_mut(), t);
                    f.stmt = enc(&v);
                    ok
                }
                Part::Proof => {
                    let mut v = mirror::<T>(proof)?;
                    let mut fo = mirror::<T>(foreign);
                    let ok = tamper_val(&mut v, fo.as_mut(), t);
                    f.proof = enc(&v);
                    ok && T::canon_differs(size, &f.proof, proof)
                }
            };
            if ok {
                Some(f)
            } else {
                None
            }
        })
    }
    fn canon(&self, size: Size, proof: &[u8]) -> Vec<u8> {
        quiet(|| T::canon(size, proof))
    }
    fn alter_wit(&self, wit: &[u8], idx: usize, alt: &Alt) -> Option<Vec<u8>> {
        quiet(|| {
            let mut w: T::Wit = dec_trusted(wit)?;
            if alter(&mut w, idx, alt, None) {
                Some(enc(&w))
            } else {
                None
            }
        })
    }
    fn alter_key(&self, key: &[u8], idx: usize, alt: &Alt) -> Option<Vec<u8>> {
        quiet(|| {
            let mut w: T::Key = dec_trusted(key)?;
            if alter(&mut w, idx, alt, None) {
                Some(enc(&w))
            } else {
                None
            }
        })
    }
    fn wit_len(&self, wit: &[u8]) -> usize {
        quiet(|| dec_trusted::<T::Wit>(wit).map(|mut w| leaves(&mut w).len()).unwrap_or(0))
    }
    fn key_len(&self, key: &[u8]) -> usize {
        quiet(|| dec_trusted::<T::Key>(key).map(|mut w| leaves(&mut w).len()).unwrap_or(0))
    }
    fn refusal(&self, kind: usize, seed: u64, key: &[u8], wit: &[u8], stmt: &[u8]) -> Option<(String, Result<(), String>)> {
        let (k, w, s): (T::Key, T::Wit, T::Stmt) = quiet(|| (dec_trusted(key).unwrap(), dec_trusted(wit).unwrap(), dec_trusted(stmt).unwrap()));
        T::refusal(kind, &mut SRng::new(seed), &k, &w, &s)
    }
    fn refuses_by_panic(&self) -> bool {
        T::REFUSES_BY_PANIC
    }
    fn attacks(&self) -> &'static [&'static str] {
        T::ATTACKS
    }
    fn findings(&self) -> &'static [&'static str] {
        T::FINDINGS
    }
    fn attack(&self, kind: &str, seed: u64, size: Size, key: &[u8], wit: &[u8], stmt: &[u8], proof: &[u8]) -> Option<Forged> {
        let (k, w, s, m): (T::Key, T::Wit, T::Stmt, T::Mirror) =
            quiet(|| Some((dec_trusted(key)?, dec_trusted(wit)?, dec_trusted(stmt)?, mirror::<T>(proof)?)))?;
        let (v, s2, m2) = T::attack(kind, &mut SRng::new(mix(&[seed, 77])), size, &k, &w, &s, &m)?;
        let f = quiet(|| Forged {
            vkey: enc(&v),
            stmt: enc(&s2),
            proof: enc(&m2),
            what: format!("attack {kind}"),
            finding: T::FINDINGS.iter().find(|x| **x == kind).copied(),
        });
        if f.stmt == stmt && f.proof == proof {
            return None;
        }
        Some(f)
    }
    fn leaf_eq(&self, a: &[u8], i: usize, b: &[u8], j: usize) -> bool {
        quiet(|| match (mirror::<T>(a), mirror::<T>(b)) {
            (Some(mut a), Some(mut b)) => matches!((leaves(&mut a).get(i), leaves(&mut b).get(j)), (Some(x), Some(y)) if x == y),
            _ => false,
        })
    }
    fn put_from(&self, a: &[u8], j: usize, b: &[u8], i: usize) -> Option<Vec<u8>> {
        quiet(|| {
            let (mut a, mut b) = (mirror::<T>(a)?, mirror::<T>(b)?);
            let x = leaves(&mut b).get(i)?.clone();
            if put_leaf(&mut a, j, &x) {
                Some(enc(&a))
            } else {
                None
            }
        })
    }
    fn later_challenges(&self, proof: &[u8]) -> Vec<usize> {
        quiet(|| mirror::<T>(proof).map(|mut m| T::later_challenges(&mut m)).unwrap_or_default())
    }
    fn after_statement(&self, size: Size) -> usize {
        T::after_statement(size)
    }
    fn rewrite(&self, proof: &[u8], w: &mut dyn std::io::Write, compress: bool) -> Result<usize, String> {
        use ark_serialize::Compress;
        let p: T::Proof = quiet(|| dec(proof)).ok_or("undecodable")?;
        let c = if compress { Compress::Yes } else { Compress::No };
        let n = p.serialized_size(c);
        p.serialize_with_mode(w, c).map_err(e2s)?;
        Ok(n)
    }
    fn reread(&self, r: &mut dyn std::io::Read, compress: bool, validate: bool) -> Result<Vec<u8>, String> {
        use ark_serialize::{Compress, Validate};
        let c = if compress { Compress::Yes } else { Compress::No };
        let v = if validate { Validate::Yes } else { Validate::No };
        let p = T::Proof::deserialize_with_mode(r, c, v).map_err(e2s)?;
        Ok(quiet(|| enc(&p)))
    }
}

trait Canon: FamT {
    fn canon(size: Size, proof: &[u8]) -> Vec<u8>;
    fn canon_differs(size: Size, a: &[u8], b: &[u8]) -> bool {
        Self::canon(size, a) != Self::canon(size, b)
    }
}
impl<T: FamT> Canon for T {
    fn canon(size: Size, proof: &[u8]) -> Vec<u8> {
        // What counts is the decoded value: an encoding may have bits that mean nothing.
        let proof = match dec::<T::Proof>(proof) {
            Some(p) => enc(&p),
            None => return proof.to_vec(),
        };
        let Some(mut m) = mirror::<T>(&proof) else { return proof };
        for i in 0..leaves(&mut m).len() {
            if T::exempt(size, Part::Proof, i) || T::exempt_in(&mut m, i) {
                alter(&mut m, i, &Alt::Zero, None);
            }
        }
        enc(&m)
    }
}

/// The digest outputs of `f`, in order, without the unusable ones.
pub fn answers(log: &[Query]) -> Vec<Vec<u8>> {
    log.iter().filter(|q| !q.unusable).map(|q| q.out.clone()).collect()
}
pub fn with_log<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    let (r, l) = logged(f);
    (r, answers(&l))
}
