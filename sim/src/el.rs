//! Engines, typed access to every element of a wire value, and element-level alterations.
use crate::rng::SRng;
use crate::simrt::quiet;
use crate::toy::{gt_pow, Toy, TA1, TA2, TG1, TG2};
use ark_bls12_381::{g1, g2, Bls12_381, Fr};
use ark_ec::short_weierstrass::{Affine, Projective};
type G1Affine = Affine<g1::Config>;
type G2Affine = Affine<g2::Config>;
type G1Projective = Projective<g1::Config>;
type G2Projective = Projective<g2::Config>;
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
use ark_ec::{pairing::{Pairing, PairingOutput}, Group};
use ark_ff::{One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};

/// A pairing engine the simulator can run the code on.
pub trait Eng:
    Pairing<ScalarField = Fr, G1: El<Self>, G2: El<Self>, G1Affine: El<Self>, G2Affine: El<Self>> + 'static
{
    const NAME: &'static str;
    fn gt(x: &Fr) -> PairingOutput<Self>;
}
impl Eng for Toy {
    const NAME: &'static str = "toy";
    fn gt(x: &Fr) -> PairingOutput<Self> {
        gt_pow(x)
    }
}
impl Eng for Bls12_381 {
    const NAME: &'static str = "bls12-381";
    fn gt(x: &Fr) -> PairingOutput<Self> {
        PairingOutput::<Bls12_381>::generator() * x
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    F,
    G1,
    G2,
    A1,
    A2,
    T,
}

/// One atomic value on the wire.
pub trait El<P: Eng>: Sized + Dflt + Clone + Copy + PartialEq + Elems<P> + CanonicalSerialize + CanonicalDeserialize + Send + Sync + 'static {
    const KIND: Kind;
    /// The element with the given discrete logarithm.
    fn of(x: &Fr) -> Self;
    fn plus(&self, o: &Self) -> Self;
    fn times(&self, x: &Fr) -> Self;
    fn wrap(self) -> Leaf<P>;
    fn unwrap(l: &Leaf<P>) -> Option<Self>;
}

#[derive(Clone, Copy, PartialEq)]
pub enum Leaf<P: Eng> {
    F(Fr),
    G1(P::G1),
    G2(P::G2),
    A1(P::G1Affine),
    A2(P::G2Affine),
    T(PairingOutput<P>),
}
impl<P: Eng> Leaf<P> {
    pub fn kind(&self) -> Kind {
        match self {
            Leaf::F(_) => Kind::F,
            Leaf::G1(_) => Kind::G1,
            Leaf::G2(_) => Kind::G2,
            Leaf::A1(_) => Kind::A1,
            Leaf::A2(_) => Kind::A2,
            Leaf::T(_) => Kind::T,
        }
    }
}

/// Operations on a variable-length part of a wire value.
pub trait Seq {
    fn len(&self) -> usize;
    fn remove(&mut self, i: usize);
    fn insert_copy(&mut self, from: usize, to: usize);
    fn swap(&mut self, i: usize, j: usize);
    fn push_default(&mut self);
    fn truncate(&mut self, n: usize);
}
impl<T: Clone + Dflt> Seq for Vec<T> {
    fn len(&self) -> usize {
        Vec::len(self)
    }
    fn remove(&mut self, i: usize) {
        Vec::remove(self, i);
    }
    fn insert_copy(&mut self, from: usize, to: usize) {
        let x = self[from].clone();
        self.insert(to, x);
    }
    fn swap(&mut self, i: usize, j: usize) {
        <[T]>::swap(self, i, j)
    }
    fn push_default(&mut self) {
        self.push(T::dflt())
    }
    fn truncate(&mut self, n: usize) {
        Vec::truncate(self, n)
    }
}
pub trait Dflt {
    fn dflt() -> Self;
}

/// Visits every element (in wire order) and every variable-length part of a value.
pub trait Elems<P: Eng> {
    fn each(&mut self, f: &mut dyn FnMut(&mut dyn LeafMut<P>));
    fn seqs(&mut self, f: &mut dyn FnMut(&mut dyn Seq));
}
pub trait LeafMut<P: Eng> {
    fn get(&self) -> Leaf<P>;
    fn put(&mut self, l: &Leaf<P>) -> bool;
}
impl<P: Eng, T: El<P>> LeafMut<P> for T {
    fn get(&self) -> Leaf<P> {
        self.wrap()
    }
    fn put(&mut self, l: &Leaf<P>) -> bool {
        match T::unwrap(l) {
            Some(x) => {
                *self = x;
                true
            }
            None => false,
        }
    }
}

macro_rules! el {
    ([$($g:tt)*], $e:ty, $t:ty, $k:ident, |$x:ident| $of:expr, |$a:ident, $b:ident| $plus:expr, |$c:ident, $s:ident| $times:expr) => {
        impl $($g)* El<$e> for $t {
            const KIND: Kind = Kind::$k;
            fn of($x: &Fr) -> Self { $of }
            fn plus(&self, o: &Self) -> Self { let ($a, $b) = (*self, *o); $plus }
            fn times(&self, x: &Fr) -> Self { let ($c, $s) = (*self, *x); $times }
            fn wrap(self) -> Leaf<$e> { Leaf::$k(self) }
            fn unwrap(l: &Leaf<$e>) -> Option<Self> { if let Leaf::$k(x) = l { Some(*x) } else { None } }
        }
        impl $($g)* Elems<$e> for $t {
            fn each(&mut self, f: &mut dyn FnMut(&mut dyn LeafMut<$e>)) { f(self) }
            fn seqs(&mut self, _f: &mut dyn FnMut(&mut dyn Seq)) {}
        }
    };
}
el!([<P: Eng>], P, Fr, F, |x| *x, |a, b| a + b, |a, s| a * s);
el!([<P: Eng>], P, PairingOutput<P>, T, |x| P::gt(x), |a, b| a + b, |a, s| a * s);
macro_rules! curve {
    ($e:ty, $g1:ty, $a1:ty, $g2:ty, $a2:ty) => {
        el!([], $e, $g1, G1, |x| <$g1>::generator() * x, |a, b| a + b, |a, s| a * s);
        el!([], $e, $g2, G2, |x| <$g2>::generator() * x, |a, b| a + b, |a, s| a * s);
        el!([], $e, $a1, A1, |x| (<$g1>::generator() * x).into(), |a, b| (a + b).into(), |a, s| (a * s).into());
        el!([], $e, $a2, A2, |x| (<$g2>::generator() * x).into(), |a, b| (a + b).into(), |a, s| (a * s).into());
    };
}
curve!(Toy, TG1, TA1, TG2, TA2);
curve!(Bls12_381, G1Projective, G1Affine, G2Projective, G2Affine);

impl<P: Eng> Elems<P> for HomomorphicPlaceholderValue {
    fn each(&mut self, _f: &mut dyn FnMut(&mut dyn LeafMut<P>)) {}
    fn seqs(&mut self, _f: &mut dyn FnMut(&mut dyn Seq)) {}
}
impl<P: Eng> Elems<P> for () {
    fn each(&mut self, _f: &mut dyn FnMut(&mut dyn LeafMut<P>)) {}
    fn seqs(&mut self, _f: &mut dyn FnMut(&mut dyn Seq)) {}
}
impl<P: Eng> Elems<P> for u64 {
    fn each(&mut self, _f: &mut dyn FnMut(&mut dyn LeafMut<P>)) {}
    fn seqs(&mut self, _f: &mut dyn FnMut(&mut dyn Seq)) {}
}
impl<P: Eng, T: Elems<P> + Clone + Dflt> Elems<P> for Vec<T> {
    fn each(&mut self, f: &mut dyn FnMut(&mut dyn LeafMut<P>)) {
        self.iter_mut().for_each(|x| x.each(f))
    }
    fn seqs(&mut self, f: &mut dyn FnMut(&mut dyn Seq)) {
        f(self);
        self.iter_mut().for_each(|x| x.seqs(f))
    }
}
impl<P: Eng, T> Elems<P> for IdentityOutput<T>
where
    T: Elems<P> + Dflt + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq,
{
    fn each(&mut self, f: &mut dyn FnMut(&mut dyn LeafMut<P>)) {
        self.0.each(f)
    }
    fn seqs(&mut self, f: &mut dyn FnMut(&mut dyn Seq)) {
        self.0.seqs(f)
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<P: Eng, $($t: Elems<P>),+> Elems<P> for ($($t,)+) {
            fn each(&mut self, f: &mut dyn FnMut(&mut dyn LeafMut<P>)) { $(self.$i.each(f);)+ }
            fn seqs(&mut self, f: &mut dyn FnMut(&mut dyn Seq)) { $(self.$i.seqs(f);)+ }
        }
        impl<$($t: Dflt),+> Dflt for ($($t,)+) { fn dflt() -> Self { ($($t::dflt(),)+) } }
    )*};
}
tuples!((A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4));
impl<T: Dflt> Dflt for Vec<T> {
    fn dflt() -> Self {
        vec![]
    }
}
impl<T> Dflt for IdentityOutput<T>
where
    T: Dflt + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq,
{
    fn dflt() -> Self {
        IdentityOutput(vec![T::dflt()])
    }
}
impl Dflt for HomomorphicPlaceholderValue {
    fn dflt() -> Self {
        HomomorphicPlaceholderValue
    }
}
impl<P: Pairing> Dflt for PairingOutput<P> {
    fn dflt() -> Self {
        // `Default` would be the field's zero, which is not a group element.
        PairingOutput::zero()
    }
}
macro_rules! dflt { ($($t:ty),*) => {$(impl Dflt for $t { fn dflt() -> Self { Default::default() } })*} }
dflt!(Fr, TG1, TG2, TA1, TA2, G1Projective, G2Projective, G1Affine, G2Affine, u64);

/// How to alter one element.
#[derive(Clone, Debug, PartialEq)]
pub enum Alt {
    /// Add the group/field element with this discrete logarithm.
    Add(u64),
    Double,
    Neg,
    Zero,
    One,
    Rand(u64),
    /// Replace by the n-th other element of the same kind in the same value.
    Copy(usize),
    /// Replace by the element at the same position of another session's value.
    Foreign,
}
pub const ALT_NAMES: &[&str] = &["add", "double", "neg", "zero", "one", "rand", "copy", "foreign"];
impl Alt {
    pub fn code(&self) -> (usize, u64) {
        match self {
            Alt::Add(x) => (0, *x),
            Alt::Double => (1, 0),
            Alt::Neg => (2, 0),
            Alt::Zero => (3, 0),
            Alt::One => (4, 0),
            Alt::Rand(x) => (5, *x),
            Alt::Copy(n) => (6, *n as u64),
            Alt::Foreign => (7, 0),
        }
    }
    pub fn from_code(c: usize, x: u64) -> Alt {
        match c {
            0 => Alt::Add(x.max(1)),
            1 => Alt::Double,
            2 => Alt::Neg,
            3 => Alt::Zero,
            4 => Alt::One,
            5 => Alt::Rand(x),
            6 => Alt::Copy(x as usize),
            _ => Alt::Foreign,
        }
    }
    pub fn random(r: &mut SRng) -> Alt {
        Alt::from_code(r.weighted(&[4, 1, 1, 2, 1, 3, 3, 2]), r.u64() >> 8)
    }
}

fn alter_one<P: Eng, T: El<P>>(x: &T, a: &Alt) -> Option<T> {
    Some(match a {
        Alt::Add(d) => x.plus(&T::of(&Fr::from(*d))),
        Alt::Double => x.plus(x),
        Alt::Neg => x.times(&-Fr::one()),
        Alt::Zero => T::of(&Fr::zero()),
        Alt::One => T::of(&Fr::one()),
        Alt::Rand(s) => T::of(&Fr::rand(&mut SRng::new(*s))),
        _ => return None,
    })
}
fn alter_leaf<P: Eng>(l: &Leaf<P>, a: &Alt) -> Option<Leaf<P>> {
    Some(match l {
        Leaf::F(x) => Leaf::F(alter_one::<P, _>(x, a)?),
        Leaf::G1(x) => Leaf::G1(alter_one::<P, _>(x, a)?),
        Leaf::G2(x) => Leaf::G2(alter_one::<P, _>(x, a)?),
        Leaf::A1(x) => Leaf::A1(alter_one::<P, _>(x, a)?),
        Leaf::A2(x) => Leaf::A2(alter_one::<P, _>(x, a)?),
        Leaf::T(x) => Leaf::T(alter_one::<P, _>(x, a)?),
    })
}

/// The element with `d` added to its discrete logarithm.
pub fn plus_log<P: Eng>(l: &Leaf<P>, d: &Fr) -> Leaf<P> {
    match l {
        Leaf::F(x) => Leaf::F(*x + d),
        Leaf::G1(x) => Leaf::G1(x.plus(&El::<P>::of(d))),
        Leaf::G2(x) => Leaf::G2(x.plus(&El::<P>::of(d))),
        Leaf::A1(x) => Leaf::A1(x.plus(&El::<P>::of(d))),
        Leaf::A2(x) => Leaf::A2(x.plus(&El::<P>::of(d))),
        Leaf::T(x) => Leaf::T(x.plus(&El::<P>::of(d))),
    }
}
pub fn leaves<P: Eng, V: Elems<P>>(v: &mut V) -> Vec<Leaf<P>> {
    let mut out = vec![];
    v.each(&mut |l| out.push(l.get()));
    out
}
pub fn put_leaf<P: Eng, V: Elems<P>>(v: &mut V, idx: usize, new: &Leaf<P>) -> bool {
    let mut i = 0;
    let mut ok = false;
    v.each(&mut |l| {
        if i == idx {
            ok = l.put(new);
        }
        i += 1;
    });
    ok
}
/// Alters element `idx`; true if the value really changed.
pub fn alter<P: Eng, V: Elems<P>>(v: &mut V, idx: usize, a: &Alt, foreign: Option<&mut V>) -> bool {
    quiet(|| {
        let ls = leaves(v);
        if idx >= ls.len() {
            return false;
        }
        let new = match a {
            Alt::Copy(n) => {
                let same: Vec<_> = ls.iter().enumerate().filter(|(i, l)| *i != idx && l.kind() == ls[idx].kind()).map(|x| *x.1).collect();
                if same.is_empty() {
                    return false;
                }
                same[n % same.len()]
            }
            Alt::Foreign => match foreign.map(|f| leaves(f)).and_then(|f| f.get(idx).copied()) {
                Some(l) if l.kind() == ls[idx].kind() => l,
                _ => return false,
            },
            _ => alter_leaf(&ls[idx], a).unwrap(),
        };
        if new == ls[idx] {
            return false;
        }
        put_leaf(v, idx, &new)
    })
}

/// Structural alteration of the `which`-th variable-length part; true if something changed.
pub fn reshape<P: Eng, V: Elems<P>>(v: &mut V, which: usize, op: usize, arg: usize) -> bool {
    let mut i = 0;
    let mut done = false;
    v.seqs(&mut |s| {
        if i == which {
            let n = s.len();
            done = true;
            match op {
                0 if n > 0 => s.remove(arg % n),
                1 if n > 0 => s.insert_copy(arg % n, (arg / 7) % (n + 1)),
                2 if n > 1 => {
                    let a = arg % n;
                    s.swap(a, (a + 1) % n)
                }
                3 => s.push_default(),
                4 if n > 0 => s.truncate(0),
                5 => {
                    for _ in 0..(arg % 40) + 1 {
                        s.push_default()
                    }
                }
                6 if n > 0 => {
                    for _ in 0..(arg % 40) + 1 {
                        s.insert_copy(0, 0)
                    }
                }
                _ => done = false,
            }
        }
        i += 1;
    });
    done
}
pub const RESHAPES: usize = 7;
pub const RESHAPE_NAMES: &[&str] = &["remove", "duplicate", "swap", "push-identity", "clear", "push-many", "prepend-many"];
pub fn seq_count<P: Eng, V: Elems<P>>(v: &mut V) -> usize {
    let mut i = 0;
    v.seqs(&mut |_| i += 1);
    i
}

pub fn enc<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_with_mode(&mut b, Compress::No).expect("encoding to memory");
    b
}
pub fn dec<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    let mut r = b;
    let x = T::deserialize_with_mode(&mut r, Compress::No, Validate::Yes).ok()?;
    if r.is_empty() {
        Some(x)
    } else {
        None
    }
}
pub fn dec_trusted<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    let mut r = b;
    T::deserialize_with_mode(&mut r, Compress::No, Validate::No).ok()
}
/// A nonzero random scalar.
pub fn rnz(r: &mut SRng) -> Fr {
    loop {
        let x = Fr::rand(r);
        if !x.is_zero() {
            return x;
        }
    }
}
