//! The inner-product arguments: GIPA, GIPA with structured scalars, TIPA, TIPA with shifted SRS,
//! TIPA with structured scalars.
use crate::digests::D64;
use crate::el::*;
use crate::fam::*;
use crate::rng::SRng;
use crate::simrt::quiet;
use ark_bls12_381::Fr;
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue, IdentityCommitment},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as DHC,
};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::{Field, One, Zero};
use ark_inner_products::{InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use ark_ip_proofs::{
    gipa::{GIPAProof, GIPA},
    tipa::{
        prove_commitment_key_kzg_opening,
        structured_scalar_message::{structured_scalar_power, GIPAWithSSM, SSMPlaceholderCommitment, TIPAWithSSM, TIPAWithSSMProof},
        TIPAProof, VerifierSRS, SRS, TIPA,
    },
};
use std::marker::PhantomData;

pub type Msg<C> = <C as DHC>::Message;
pub type Key<C> = <C as DHC>::Key;
pub type Out<C> = <C as DHC>::Output;
pub type Step<L, R, T> = ((Out<L>, Out<R>, Out<T>), (Out<L>, Out<R>, Out<T>));
pub type GMirror<L, R, T> = (Vec<Step<L, R, T>>, (Msg<L>, Msg<R>));
pub type Ph = HomomorphicPlaceholderValue;

pub fn mulc<T: Clone + std::ops::MulAssign<Fr>>(t: &T, x: &Fr) -> T {
    let mut t = t.clone();
    t *= *x;
    t
}
fn err(e: impl std::fmt::Display) -> String {
    format!("error: {e}")
}

/// The weights with which the elements of a commitment key enter its folded value.
fn weights(transcript: &[Fr], inverse: bool) -> Vec<Fr> {
    let mut w = vec![Fr::one()];
    for c in transcript {
        let c = if inverse { c.inverse().unwrap() } else { *c };
        for j in 0..w.len() {
            w.push(w[j] * c);
        }
    }
    w
}
fn folded<K: Clone + std::ops::Add<Output = K> + std::ops::MulAssign<Fr>>(k: &[K], w: &[Fr]) -> Option<K> {
    if k.len() != w.len() {
        return None;
    }
    k.iter().zip(w).map(|(k, w)| mulc(k, w)).reduce(|a, b| a + b)
}

pub struct Woven<L: DHC, R: DHC, T: DHC> {
    pub mirror: GMirror<L, R, T>,
    pub ck_base: (Key<L>, Key<R>),
    /// Amount by which the statement's inner-product commitment has to move.
    pub shift: Out<T>,
    pub c: Fr,
}
/// A prover that adds `delta` to the inner-product commitment of the left message of one round and
/// moves the claim accordingly, after it has seen the challenge (possible because the statement is
/// not part of any challenge).
pub fn weak_fs<I, L, R, T>(
    a: &[Msg<L>],
    b: &[Msg<R>],
    ck: (&[Key<L>], &[Key<R>], &Key<T>),
    round: usize,
    delta: Out<T>,
    challenge: &dyn Fn(&GMirror<L, R, T>) -> Option<Fr>,
) -> Option<Woven<L, R, T>>
where
    I: InnerProduct<LeftMessage = Msg<L>, RightMessage = Msg<R>, Output = Msg<T>>,
    L: DHC<Scalar = Fr>,
    R: DHC<Scalar = Fr>,
    T: DHC<Scalar = Fr>,
{
    let (mut a, mut b, mut ka, mut kb) = (a.to_vec(), b.to_vec(), ck.0.to_vec(), ck.1.to_vec());
    let mut steps: Vec<Step<L, R, T>> = vec![];
    let mut shift = None;
    let mut i = 0;
    while a.len() > 1 {
        let n = a.len() / 2;
        let kt = [ck.2.clone()];
        let left = (
            L::commit(&ka[..n], &a[n..]).ok()?,
            R::commit(&kb[n..], &b[..n]).ok()?,
            T::commit(&kt, &[I::inner_product(&a[n..], &b[..n]).ok()?]).ok()?,
        );
        let right = (
            L::commit(&ka[n..], &a[..n]).ok()?,
            R::commit(&kb[..n], &b[n..]).ok()?,
            T::commit(&kt, &[I::inner_product(&a[..n], &b[n..]).ok()?]).ok()?,
        );
        let left = if i == round { (left.0, left.1, left.2 + delta.clone()) } else { left };
        steps.insert(0, (left, right));
        let c = challenge(&(steps.clone(), (a[0].clone(), b[0].clone())))?;
        let ci = c.inverse()?;
        if i == round {
            shift = Some((mulc(&delta, &-c), c));
        }
        a = (0..n).map(|j| mulc(&a[n + j], &c) + a[j].clone()).collect();
        b = (0..n).map(|j| mulc(&b[n + j], &ci) + b[j].clone()).collect();
        ka = (0..n).map(|j| mulc(&ka[n + j], &ci) + ka[j].clone()).collect();
        kb = (0..n).map(|j| mulc(&kb[n + j], &c) + kb[j].clone()).collect();
        i += 1;
    }
    let (shift, c) = shift?;
    Some(Woven { mirror: (steps, (a[0].clone(), b[0].clone())), ck_base: (ka[0].clone(), kb[0].clone()), shift, c })
}

/// An element whose check is a pairing equation: it is paired with `base` (given in both groups).
pub struct Spot<P: Eng> {
    pub stmt: bool,
    pub idx: usize,
    pub base: (P::G1, P::G2),
}
/// Changes two elements so that the errors in their equations cancel if the equations are added up
/// (with a weight a verifier might use).
pub fn trade_spots<P: Eng, S: Wire<P>, M: Wire<P>>(rng: &mut SRng, s: &mut S, m: &mut M, spots: &[Spot<P>], challenges: &[Fr]) -> Option<()> {
    quiet(|| {
        if spots.len() < 2 {
            return None;
        }
        let i = rng.below(spots.len());
        let j = (i + 1 + rng.below(spots.len() - 1)) % spots.len();
        let range = if rng.chance(1, 2) { 2 } else { 200 };
        let w = weight(challenges, rng.below(range));
        let d = rnz(rng);
        for (me, other, x) in [(&spots[i], &spots[j], d * w), (&spots[j], &spots[i], -d)] {
            let l = if me.stmt { *leaves(s).get(me.idx)? } else { *leaves(m).get(me.idx)? };
            let new = match l {
                Leaf::G1(a) => Leaf::G1(a + other.base.0 * x),
                Leaf::G2(a) => Leaf::G2(a + other.base.1 * x),
                Leaf::T(a) => Leaf::T(a + P::pairing(other.base.0 * x, me.base.1)),
                _ => return None,
            };
            if !(if me.stmt { put_leaf(s, me.idx, &new) } else { put_leaf(m, me.idx, &new) }) {
                return None;
            }
        }
        Some(())
    })
}
/// The target-group elements of a value, as spots.
pub fn t_spots<P: Eng, V: Wire<P>>(v: &mut V, stmt: bool, g: P::G1, h: P::G2) -> Vec<Spot<P>> {
    leaves::<P, V>(v).iter().enumerate().filter(|(_, l)| l.kind() == Kind::T).map(|(idx, _)| Spot { stmt, idx, base: (g, h) }).collect()
}

fn later<P: Eng, L: DHC, R: DHC, T: DHC>(m: &GMirror<L, R, T>, extra: usize) -> Vec<usize>
where
    Out<L>: Elems<P>,
    Out<R>: Elems<P>,
    Out<T>: Elems<P>,
    Msg<L>: Elems<P>,
    Msg<R>: Elems<P>,
{
    let mut v = vec![];
    for (i, s) in m.0.iter().enumerate() {
        v.extend(vec![i + 1 + extra; leaves::<P, _>(&mut s.clone()).len()]);
    }
    v.extend(vec![0; leaves::<P, _>(&mut m.1.clone()).len()]);
    v
}

// ------------------------------------------------------------------------------------------ GIPA
macro_rules! gipa {
    ($t:ident, $name:literal, $ip:ty, $l:ty, $r:ty, $c:ty) => {
        pub struct $t<P>(PhantomData<fn() -> P>);
        impl<P: Eng> FamT for $t<P> {
            type P = P;
            type Key = (Vec<Key<$l>>, Vec<Key<$r>>, Key<$c>);
            type VKey = Self::Key;
            type Wit = (Vec<Msg<$l>>, Vec<Msg<$r>>);
            type Stmt = (Out<$l>, Out<$r>, Out<$c>);
            type Proof = GIPAProof<$ip, $l, $r, $c, D64>;
            type Mirror = GMirror<$l, $r, $c>;
            const NAME: &'static str = $name;
            const ATTACKS: &'static [&'static str] =
                &["comp-la", "comp-lb", "comp-lt", "comp-ra", "comp-rb", "comp-rt", "base-a", "base-b", "base-a-t", "base-b-t", "false-claim", "weak-fs"];
            const FINDINGS: &'static [&'static str] = &["weak-fs"];

            fn claims(s: &mut Self::Stmt) -> Vec<usize> {
                vec![leaves::<P, _>(&mut s.0).len() + leaves::<P, _>(&mut s.1).len()]
            }
            fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
                <GIPA<$ip, $l, $r, $c, D64>>::setup(rng, 1 << size.a).map_err(err)
            }
            fn vkey(k: &Self::Key) -> Self::VKey {
                k.clone()
            }
            fn witness(k: &Self::Key, rng: &mut SRng, _s: Size, shape: usize) -> Self::Wit {
                (shaped::<P, _>(rng, k.0.len(), shape, 0), shaped::<P, _>(rng, k.0.len(), shape, 1))
            }
            fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
                let t = <$ip>::inner_product(&w.0, &w.1).map_err(err)?;
                Ok((
                    <$l>::commit(&k.0, &w.0).map_err(err)?,
                    <$r>::commit(&k.1, &w.1).map_err(err)?,
                    <$c>::commit(&[k.2.clone()], &[t]).map_err(err)?,
                ))
            }
            fn prove(k: &Self::Key, w: &Self::Wit, s: &Self::Stmt) -> Result<Self::Proof, String> {
                let t = <$ip>::inner_product(&w.0, &w.1).map_err(err)?;
                <GIPA<$ip, $l, $r, $c, D64>>::prove((&w.0, &w.1, &t), (&k.0, &k.1, &k.2), (&s.0, &s.1, &s.2)).map_err(err)
            }
            fn prove_unchecked(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
                Ok(<GIPA<$ip, $l, $r, $c, D64>>::prove_with_aux((&w.0, &w.1), (&k.0, &k.1, &[k.2.clone()])).map_err(err)?.0)
            }
            fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
                <GIPA<$ip, $l, $r, $c, D64>>::verify((&v.0, &v.1, &v.2), (&s.0, &s.1, &s.2), p).map_err(err)
            }
            fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
                let (mut k, mut w, mut s) = (k.clone(), w.clone(), s.clone());
                let mut t = <$ip>::inner_product(&w.0, &w.1).ok()?;
                let n = w.0.len();
                let x = rnz(rng);
                let what = match kind % 7 {
                    0 => {
                        alter::<P, _>(&mut t, 0, &Alt::Rand(rng.u64()), None);
                        s.2 = <$c>::commit(&[k.2.clone()], &[t.clone()]).ok()?;
                        "false claim with matching commitment"
                    }
                    1 => {
                        s.0 *= x;
                        "mismatched left commitment"
                    }
                    2 => {
                        s.1 *= x;
                        "mismatched right commitment"
                    }
                    3 => {
                        s.2 *= x;
                        "mismatched inner-product commitment"
                    }
                    4 => {
                        if n == 2 {
                            return None;
                        }
                        w.0.pop();
                        w.1.pop();
                        k.0.pop();
                        k.1.pop();
                        s = Self::state(&k, &w).ok()?;
                        t = <$ip>::inner_product(&w.0, &w.1).ok()?;
                        "length not a power of two"
                    }
                    5 => {
                        w.1.pop();
                        "vectors of different lengths"
                    }
                    _ => {
                        alter::<P, _>(&mut w, rng.below(2 * n), &Alt::Rand(rng.u64()), None);
                        t = <$ip>::inner_product(&w.0, &w.1).ok()?;
                        "witness other than the committed one"
                    }
                };
                let r = <GIPA<$ip, $l, $r, $c, D64>>::prove((&w.0, &w.1, &t), (&k.0, &k.1, &k.2), (&s.0, &s.1, &s.2));
                Some((what.into(), r.map(|_| ()).map_err(err)))
            }
            fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
                type G<P> = GIPA<$ip, $l, $r, $c, D64>;
                let (mut s, mut m) = (s.clone(), m.clone());
                let challenges = |s: &Self::Stmt, m: &Self::Mirror| -> Option<Vec<Fr>> {
                    let p: Self::Proof = quiet(|| dec_trusted(&enc(m)))?;
                    Some(G::<P>::verify_recursive_challenge_transcript((&s.0, &s.1, &s.2), &p).ok()?.1)
                };
                gipa_attack!(P, kind, rng, k, w, s, m, challenges, $ip, $l, $r, $c, (k.0, k.1, k.2), {
                    let x = challenges(&s, &m)?;
                    (folded(&k.0, &weights(&x, true))?, folded(&k.1, &weights(&x, false))?)
                }, |_w| {});
                Some((k.clone(), s, m))
            }
            fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
                later::<P, $l, $r, $c>(m, 0)
            }
        }
    };
}

/// Makes lengths no argument can be made for (None: not at this size).
fn misfit<A: Clone, B: Clone, K: Clone>(kind: usize, rng: &mut SRng, a: &mut Vec<A>, b: &mut Vec<B>, ka: &mut Vec<K>, kb_pop: &mut dyn FnMut()) -> Option<&'static str> {
    Some(match kind % 3 {
        0 => {
            if a.len() <= 2 {
                return None;
            }
            a.pop();
            b.pop();
            ka.pop();
            kb_pop();
            "length not a power of two"
        }
        1 => {
            let n = a.len();
            if rng.chance(1, 2) {
                b.truncate(n / 2)
            } else if rng.chance(1, 2) {
                b.extend_from_slice(&b.clone())
            } else {
                b.pop();
            }
            "vectors of different lengths"
        }
        _ => {
            if rng.chance(1, 2) {
                ka.pop();
            } else {
                let x = ka[0].clone();
                ka.push(x)
            }
            "key of another length"
        }
    })
}
/// The attacks shared by all arguments with committed left and right vectors. `$s.0/.1/.2` are the
/// statement's commitments, `$m.0` the rounds, `$m.1` the opened values.
macro_rules! gipa_attack {
    ($P:ty, $kind:ident, $rng:ident, $k:ident, $w:ident, $s:ident, $m:ident, $chal:ident, $ip:ty, $l:ty, $r:ty, $c:ty, ($ka:expr, $kb:expr, $kt:expr), $base:block, |$wv:ident| $after:block) => {{
        let n = $m.0.len();
        match $kind {
            "comp-la" | "comp-lb" | "comp-lt" | "comp-ra" | "comp-rb" | "comp-rt" => {
                if n == 0 {
                    return None;
                }
                let i = $rng.below(n);
                let c = $chal(&$s, &$m)?[i];
                let rho = rnz($rng);
                let left = $kind.as_bytes()[5] == b'l';
                let f = if left { -c } else { -c.inverse()? };
                let side = |p: &mut Step<$l, $r, $c>| if left { p.0.clone() } else { p.1.clone() };
                let mut e = side(&mut $m.0[i]);
                match $kind.as_bytes()[6] {
                    b'a' => {
                        let d = mulc(&$s.0, &rho);
                        e.0 = e.0 + d.clone();
                        $s.0 = $s.0.clone() + mulc(&d, &f);
                    }
                    b'b' => {
                        let d = mulc(&$s.1, &rho);
                        e.1 = e.1 + d.clone();
                        $s.1 = $s.1.clone() + mulc(&d, &f);
                    }
                    _ => {
                        let d = mulc(&$s.2, &rho);
                        e.2 = e.2 + d.clone();
                        $s.2 = $s.2.clone() + mulc(&d, &f);
                    }
                }
                if left {
                    $m.0[i].0 = e
                } else {
                    $m.0[i].1 = e
                }
            }
            "base-a" | "base-a-t" => {
                let base = $base;
                let d = mulc(&$m.1 .0, &rnz($rng));
                if $kind == "base-a" {
                    $s.0 = $s.0.clone() + <$l>::commit(&[base.0], &[d.clone()]).ok()?;
                } else {
                    let t = <$ip>::inner_product(&[d.clone()], &[$m.1 .1.clone()]).ok()?;
                    $s.2 = $s.2.clone() + <$c>::commit(&[$kt.clone()], &[t]).ok()?;
                }
                $m.1 .0 = $m.1 .0.clone() + d;
            }
            "base-b" | "base-b-t" => {
                let base = $base;
                let d = mulc(&$m.1 .1, &rnz($rng));
                if $kind == "base-b" {
                    $s.1 = $s.1.clone() + <$r>::commit(&[base.1], &[d.clone()]).ok()?;
                } else {
                    let t = <$ip>::inner_product(&[$m.1 .0.clone()], &[d.clone()]).ok()?;
                    $s.2 = $s.2.clone() + <$c>::commit(&[$kt.clone()], &[t]).ok()?;
                }
                $m.1 .1 = $m.1 .1.clone() + d;
            }
            "false-claim" => {
                $s.2 = mulc(&$s.2, &rnz($rng));
            }
            "weak-fs" => {
                if n == 0 {
                    return None;
                }
                let delta = mulc(&$s.2, &rnz($rng));
                let s2 = $s.clone();
                let $wv = weak_fs::<$ip, $l, $r, $c>(&$w.0, &$w.1, (&$ka, &$kb, &$kt), $rng.below(n), delta, &|g| $chal(&s2, g)?.first().copied())?;
                $s.2 = $s.2.clone() + $wv.shift.clone();
                $m.0 = $wv.mirror.0.clone();
                $m.1 = $wv.mirror.1.clone();
                $after
            }
            _ => return None,
        }
    }};
}

gipa!(GipaPairing, "gipa-pairing", PairingInnerProduct<P>, AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>, IdentityCommitment<PairingOutput<P>, Fr>);
gipa!(GipaMulti, "gipa-multiexp", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<<P as Pairing>::G1>, IdentityCommitment<<P as Pairing>::G1, Fr>);
gipa!(GipaMultiAfgho, "gipa-multiexp-afgho", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<<P as Pairing>::G1>, AFGHOCommitmentG1<P>);
gipa!(GipaScalar, "gipa-scalar", ScalarInnerProduct<Fr>, PedersenCommitment<<P as Pairing>::G2>, PedersenCommitment<<P as Pairing>::G1>, PedersenCommitment<<P as Pairing>::G1>);
gipa!(GipaScalarId, "gipa-scalar-identity", ScalarInnerProduct<Fr>, PedersenCommitment<<P as Pairing>::G1>, PedersenCommitment<<P as Pairing>::G1>, IdentityCommitment<Fr, Fr>);

// ---------------------------------------------------------------------------------- GIPA with SSM
pub type Ssm = SSMPlaceholderCommitment<Fr>;
pub fn ssm_challenges<I, L, C>(com_a: &Out<L>, com_t: &Out<C>, m: &GMirror<L, Ssm, C>) -> Option<Vec<Fr>>
where
    I: InnerProduct<LeftMessage = Msg<L>, RightMessage = Fr, Output = Msg<C>>,
    L: DHC<Scalar = Fr>,
    C: DHC<Scalar = Fr>,
{
    let p: GIPAProof<I, L, Ssm, C, D64> = quiet(|| dec_trusted(&enc(m)))?;
    Some(<GIPA<I, L, Ssm, C, D64>>::verify_recursive_challenge_transcript((com_a, &Fr::zero(), com_t), &p).ok()?.1)
}
/// Structured right-hand side: powers of a scalar.
fn powers_base(rng: &mut SRng, shape: usize) -> Fr {
    if let Some(x) = special(shape) {
        return x;
    }
    match SHAPES[shape % SHAPES.len()] {
        "zeros" | "right-zero" => Fr::zero(),
        "ones" => Fr::one(),
        "negated-pairs" => -Fr::one(),
        "edge" | "half-zero" => edge(rng),
        _ => rnz(rng),
    }
}

macro_rules! gipa_ssm {
    ($t:ident, $name:literal, $ip:ty, $l:ty, $c:ty) => {
        pub struct $t<P>(PhantomData<fn() -> P>);
        impl<P: Eng> FamT for $t<P> {
            type P = P;
            type Key = (Vec<Key<$l>>, Key<$c>);
            type VKey = Self::Key;
            type Wit = (Vec<Msg<$l>>, Fr);
            type Stmt = (Out<$l>, Fr, Out<$c>);
            type Proof = GIPAProof<$ip, $l, Ssm, $c, D64>;
            type Mirror = GMirror<$l, Ssm, $c>;
            const NAME: &'static str = $name;
            const ATTACKS: &'static [&'static str] =
                &["comp-la", "comp-lt", "comp-ra", "comp-rt", "base-a", "base-a-t", "base-b-t", "false-claim", "unstructured", "weak-fs"];
            const FINDINGS: &'static [&'static str] = &["weak-fs"];

            fn claims(s: &mut Self::Stmt) -> Vec<usize> {
                vec![leaves::<P, _>(&mut s.0).len() + leaves::<P, _>(&mut s.1).len()]
            }
            fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
                <GIPAWithSSM<$ip, $l, $c, D64>>::setup(rng, 1 << size.a).map_err(err)
            }
            fn vkey(k: &Self::Key) -> Self::VKey {
                k.clone()
            }
            fn witness(k: &Self::Key, rng: &mut SRng, _s: Size, shape: usize) -> Self::Wit {
                (shaped::<P, _>(rng, k.0.len(), shape, 0), powers_base(rng, shape))
            }
            fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
                let t = <$ip>::inner_product(&w.0, &structured_scalar_power(w.0.len(), &w.1)).map_err(err)?;
                Ok((<$l>::commit(&k.0, &w.0).map_err(err)?, w.1, <$c>::commit(&[k.1.clone()], &[t]).map_err(err)?))
            }
            fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
                let b = structured_scalar_power(w.0.len(), &w.1);
                <GIPAWithSSM<$ip, $l, $c, D64>>::prove_with_structured_scalar_message((&w.0, &b), (&k.0, &k.1)).map_err(err)
            }
            fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
                <GIPAWithSSM<$ip, $l, $c, D64>>::verify_with_structured_scalar_message((&v.0, &v.1), (&s.0, &s.2), &s.1, p).map_err(err)
            }
            fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
                let (mut a, mut b, mut ka) = (w.0.clone(), structured_scalar_power(w.0.len(), &w.1), k.0.clone());
                let what = misfit(kind, rng, &mut a, &mut b, &mut ka, &mut || ())?;
                let r = <GIPAWithSSM<$ip, $l, $c, D64>>::prove_with_structured_scalar_message((&a, &b), (&ka, &k.1));
                Some((what.into(), r.map(|_| ()).map_err(err)))
            }
            fn exempt(size: Size, part: Part, idx: usize) -> bool {
                // With one element the only power is 1, whatever the scalar.
                size.a == 0 && part == Part::Stmt && idx == 1
            }
            fn attack(kind: &str, rng: &mut SRng, size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
                let (mut s, mut m) = (s.clone(), m.clone());
                if kind == "unstructured" {
                    let mut b = structured_scalar_power(w.0.len(), &w.1);
                    let i = rng.below(b.len());
                    b[i] += rnz(rng);
                    let p = <GIPAWithSSM<$ip, $l, $c, D64>>::prove_with_structured_scalar_message((&w.0, &b), (&k.0, &k.1)).ok()?;
                    let t = <$ip>::inner_product(&w.0, &b).ok()?;
                    s.2 = <$c>::commit(&[k.1.clone()], &[t]).ok()?;
                    return Some((k.clone(), s, quiet(|| dec_trusted(&enc(&p)))?));
                }
                let challenges = |s: &Self::Stmt, m: &Self::Mirror| ssm_challenges::<$ip, $l, $c>(&s.0, &s.2, m);
                let kb = vec![HomomorphicPlaceholderValue; k.0.len()];
                let w = &(w.0.clone(), structured_scalar_power(w.0.len(), &w.1));
                if size.a == 0 && kind == "base-b-t" {
                    // b is always 1 here, so this must be refused as well.
                }
                gipa_attack!(P, kind, rng, k, w, s, m, challenges, $ip, $l, Ssm, $c, (k.0, kb, k.1), {
                    let x = challenges(&s, &m)?;
                    (folded(&k.0, &weights(&x, true))?, HomomorphicPlaceholderValue)
                }, |_w| {});
                Some((k.clone(), s, m))
            }
            fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
                later::<P, $l, Ssm, $c>(m, 0)
            }
        }
    };
}
gipa_ssm!(SsmMulti, "gipa-ssm-multiexp", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, IdentityCommitment<<P as Pairing>::G1, Fr>);
gipa_ssm!(SsmScalar, "gipa-ssm-scalar", ScalarInnerProduct<Fr>, PedersenCommitment<<P as Pairing>::G1>, PedersenCommitment<<P as Pairing>::G1>);

// ------------------------------------------------------------------------------------------ TIPA
pub type SrsT<P> = (Vec<<P as Pairing>::G1>, Vec<<P as Pairing>::G2>, <P as Pairing>::G1, <P as Pairing>::G2);
pub type VSrsT<P> = (<P as Pairing>::G1, <P as Pairing>::G2, <P as Pairing>::G1, <P as Pairing>::G2);
pub fn to_srs<P: Eng>(k: &SrsT<P>) -> SRS<P> {
    SRS { g_alpha_powers: k.0.clone(), h_beta_powers: k.1.clone(), g_beta: k.2, h_alpha: k.3 }
}
pub fn from_srs<P: Eng>(s: &SRS<P>) -> SrsT<P> {
    (s.g_alpha_powers.clone(), s.h_beta_powers.clone(), s.g_beta, s.h_alpha)
}
pub fn to_vsrs<P: Eng>(k: &VSrsT<P>) -> VerifierSRS<P> {
    VerifierSRS { g: k.0, h: k.1, g_beta: k.2, h_alpha: k.3 }
}
pub fn from_vsrs<P: Eng>(s: &VerifierSRS<P>) -> VSrsT<P> {
    (s.g, s.h, s.g_beta, s.h_alpha)
}
pub fn last_challenge(a: &[Vec<u8>]) -> Option<Fr> {
    Fr::from_random_bytes(a.last()?)
}

macro_rules! tipa {
    ($t:ident, $name:literal, $ip:ty, $l:ty, $r:ty, $c:ty, shift $shift:literal) => {
        pub struct $t<P>(PhantomData<fn() -> P>);
        impl<P: Eng> $t<P> {
            /// Left vector and left key, scaled for the shifted variant.
            fn scaled(srs: &SRS<P>, w: &<Self as FamT>::Wit) -> (Vec<Msg<$l>>, Vec<Key<$l>>, Vec<Key<$r>>) {
                let (ck_a, ck_b) = srs.get_commitment_keys();
                if !$shift {
                    return (w.0.clone(), ck_a, ck_b);
                }
                let r = structured_scalar_power(w.0.len(), &w.2);
                let a = w.0.iter().zip(&r).map(|(a, r)| mulc(a, r)).collect();
                let k = ck_a.iter().zip(&r).map(|(k, r)| mulc(k, &r.inverse().unwrap())).collect();
                (a, k, ck_b)
            }
        }
        impl<P: Eng> FamT for $t<P> {
            type P = P;
            type Key = (SrsT<P>, Key<$c>);
            type VKey = (VSrsT<P>, Key<$c>);
            type Wit = (Vec<Msg<$l>>, Vec<Msg<$r>>, Fr);
            type Stmt = (Out<$l>, Out<$r>, Out<$c>, Fr);
            type Proof = TIPAProof<$ip, $l, $r, $c, P, D64>;
            type Mirror = (Vec<Step<$l, $r, $c>>, (Msg<$l>, Msg<$r>), (Key<$l>, Key<$r>), (<P as Pairing>::G2, <P as Pairing>::G1));
            const NAME: &'static str = $name;
            const ATTACKS: &'static [&'static str] = &[
                "comp-la", "comp-lb", "comp-lt", "comp-ra", "comp-rb", "comp-rt", "base-a", "base-b", "base-a-t", "base-b-t", "false-claim",
                "ck-a", "ck-b", "kzg-a", "kzg-b", "pairing-trade", "pairing-trade", "weak-fs",
            ];
            const FINDINGS: &'static [&'static str] = &["weak-fs"];

            fn claims(s: &mut Self::Stmt) -> Vec<usize> {
                vec![leaves::<P, _>(&mut s.0).len() + leaves::<P, _>(&mut s.1).len()]
            }
            fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
                let (srs, ck_t) = <TIPA<$ip, $l, $r, $c, P, D64>>::setup(rng, 1 << size.a).map_err(err)?;
                Ok((from_srs(&srs), ck_t))
            }
            fn vkey(k: &Self::Key) -> Self::VKey {
                (from_vsrs(&to_srs::<P>(&k.0).get_verifier_key()), k.1.clone())
            }
            fn witness(k: &Self::Key, rng: &mut SRng, _s: Size, shape: usize) -> Self::Wit {
                let n = (k.0 .0.len() + 1) / 2;
                let r = match special(shape) {
                    _ if !$shift => Fr::one(),
                    Some(x) if !x.is_zero() => x,
                    _ => rnz(rng),
                };
                (shaped::<P, _>(rng, n, shape, 0), shaped::<P, _>(rng, n, shape, 1), r)
            }
            fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
                let srs = to_srs::<P>(&k.0);
                let (ck_a, ck_b) = srs.get_commitment_keys();
                let (a, _, _) = Self::scaled(&srs, w);
                let t = <$ip>::inner_product(&a, &w.1).map_err(err)?;
                Ok((
                    <$l>::commit(&ck_a, &w.0).map_err(err)?,
                    <$r>::commit(&ck_b, &w.1).map_err(err)?,
                    <$c>::commit(&[k.1.clone()], &[t]).map_err(err)?,
                    w.2,
                ))
            }
            fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
                let srs = to_srs::<P>(&k.0);
                let (a, ka, kb) = Self::scaled(&srs, w);
                if $shift {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::prove_with_srs_shift(&srs, (&a, &w.1), (&ka, &kb, &k.1), &w.2).map_err(err)
                } else {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::prove(&srs, (&a, &w.1), (&ka, &kb, &k.1)).map_err(err)
                }
            }
            fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
                let vs = to_vsrs::<P>(&v.0);
                if $shift {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::verify_with_srs_shift(&vs, &v.1, (&s.0, &s.1, &s.2), p, &s.3).map_err(err)
                } else {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::verify(&vs, &v.1, (&s.0, &s.1, &s.2), p).map_err(err)
                }
            }
            fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
                let srs = to_srs::<P>(&k.0);
                let (mut a, mut ka, mut kb) = Self::scaled(&srs, w);
                let mut b = w.1.clone();
                let what = misfit(kind, rng, &mut a, &mut b, &mut ka, &mut || drop(kb.pop()))?;
                let r = if $shift {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::prove_with_srs_shift(&srs, (&a, &b), (&ka, &kb, &k.1), &w.2)
                } else {
                    <TIPA<$ip, $l, $r, $c, P, D64>>::prove(&srs, (&a, &b), (&ka, &kb, &k.1))
                };
                Some((what.into(), r.map(|_| ()).map_err(err)))
            }
            fn exempt(size: Size, part: Part, idx: usize) -> bool {
                match part {
                    // A key for one element is just the generators; the shift of one element is nothing.
                    Part::VKey => size.a == 0 && idx < 4,
                    Part::Stmt => idx == 3 && (!$shift || size.a == 0),
                    Part::Proof => false,
                }
            }
            fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
                type T<P> = TIPA<$ip, $l, $r, $c, P, D64>;
                let (mut s, mut m) = (s.clone(), m.clone());
                let vk = Self::vkey(k);
                let srs = to_srs::<P>(&k.0);
                let (wa, ka, kb) = Self::scaled(&srs, w);
                let w = &(wa, w.1.clone());
                let r = s.3;
                let kzg_challenge = |s: &Self::Stmt, m: &Self::Mirror| -> Option<Fr> {
                    let p: Self::Proof = quiet(|| dec_trusted(&enc(m)))?;
                    last_challenge(&with_log(|| Self::verify(&vk, s, &p)).1)
                };
                let challenges = |s: &Self::Stmt, m: &GMirror<$l, $r, $c>| -> Option<Vec<Fr>> {
                    let p: GIPAProof<$ip, $l, $r, $c, D64> = quiet(|| dec_trusted(&enc(m)))?;
                    Some(<GIPA<$ip, $l, $r, $c, D64>>::verify_recursive_challenge_transcript((&s.0, &s.1, &s.2), &p).ok()?.1)
                };
                match kind {
                    "pairing-trade" => {
                        let (p, s0): (Self::Proof, _) = (quiet(|| dec_trusted(&enc(&m)))?, s.clone());
                        let log = with_log(|| Self::verify(&vk, &s0, &p)).1;
                        let c = last_challenge(&log)?;
                        let (ga, hb) = (*srs.g_alpha_powers.get(1)?, *srs.h_beta_powers.get(1)?);
                        let (g, h) = (vk.0 .0, vk.0 .1);
                        let n = quiet(|| leaves::<P, _>(&mut m).len());
                        let mut spots = vec![
                            Spot { stmt: false, idx: n - 2, base: (vk.0 .2 - g * c, hb - h * c) },
                            Spot { stmt: false, idx: n - 1, base: (ga - g * c, vk.0 .3 - h * c) },
                        ];
                        if rng.chance(1, 2) {
                            spots.extend(quiet(|| t_spots(&mut s, true, g, h)));
                        }
                        trade_spots(rng, &mut s, &mut m, &spots, &challenge_values(&log))?;
                    }
                    "ck-a" | "kzg-a" => {
                        let x = rnz(rng);
                        let d = if kind == "ck-a" {
                            mulc(&m.2 .0, &x)
                        } else {
                            let c = kzg_challenge(&s, &m)?;
                            m.3 .0 = m.3 .0 + srs.h_beta_powers[0] * x;
                            (*srs.h_beta_powers.get(1)? - srs.h_beta_powers[0] * c) * x
                        };
                        m.2 .0 = m.2 .0 + d;
                        s.0 = s.0.clone() + <$l>::commit(&[d], &[m.1 .0.clone()]).ok()?;
                    }
                    "ck-b" | "kzg-b" => {
                        let x = rnz(rng);
                        let d = if kind == "ck-b" {
                            mulc(&m.2 .1, &x)
                        } else {
                            let c = kzg_challenge(&s, &m)?;
                            m.3 .1 = m.3 .1 + srs.g_alpha_powers[0] * x;
                            (*srs.g_alpha_powers.get(1)? - srs.g_alpha_powers[0] * c) * x
                        };
                        m.2 .1 = m.2 .1 + d;
                        s.1 = s.1.clone() + <$r>::commit(&[d], &[m.1 .1.clone()]).ok()?;
                    }
                    _ => {
                        let mut g: GMirror<$l, $r, $c> = (m.0.clone(), m.1.clone());
                        let mut ck = m.2.clone();
                        gipa_attack!(P, kind, rng, k, w, s, g, challenges, $ip, $l, $r, $c, (ka, kb, k.1), { m.2.clone() }, |wv| {
                            ck = wv.ck_base.clone();
                        });
                        m.0 = g.0;
                        m.1 = g.1;
                        if kind == "weak-fs" {
                            m.2 = ck;
                            let c = kzg_challenge(&s, &m)?;
                            let x = challenges(&s, &(m.0.clone(), m.1.clone()))?;
                            let xi = x.iter().map(|x| x.inverse().unwrap()).collect();
                            m.3 .0 = prove_commitment_key_kzg_opening(&srs.h_beta_powers, &xi, &r.inverse()?, &c).ok()?;
                            m.3 .1 = prove_commitment_key_kzg_opening(&srs.g_alpha_powers, &x, &Fr::one(), &c).ok()?;
                        }
                    }
                }
                let _ = PhantomData::<T<P>>;
                Some((vk, s, m))
            }
            fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
                let mut v = later::<P, $l, $r, $c>(&(m.0.clone(), m.1.clone()), 1);
                v.extend([1, 1, 0, 0]);
                v
            }
        }
    };
}
tipa!(TipaPairing, "tipa-pairing", PairingInnerProduct<P>, AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>, IdentityCommitment<PairingOutput<P>, Fr>, shift false);
tipa!(TipaShift, "tipa-pairing-shift", PairingInnerProduct<P>, AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>, IdentityCommitment<PairingOutput<P>, Fr>, shift true);
tipa!(TipaMulti, "tipa-multiexp", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<<P as Pairing>::G1>, IdentityCommitment<<P as Pairing>::G1, Fr>, shift false);
tipa!(TipaScalar, "tipa-scalar", ScalarInnerProduct<Fr>, PedersenCommitment<<P as Pairing>::G2>, PedersenCommitment<<P as Pairing>::G1>, PedersenCommitment<<P as Pairing>::G1>, shift false);
tipa!(TipaMultiShift, "tipa-multiexp-shift", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, shift true);

// ---------------------------------------------------------------------------------- TIPA with SSM
macro_rules! tipa_ssm {
    ($t:ident, $name:literal, $ip:ty, $l:ty, $c:ty) => {
        pub struct $t<P>(PhantomData<fn() -> P>);
        impl<P: Eng> FamT for $t<P> {
            type P = P;
            type Key = (SrsT<P>, Key<$c>);
            type VKey = (VSrsT<P>, Key<$c>);
            type Wit = (Vec<Msg<$l>>, Fr);
            type Stmt = (Out<$l>, Fr, Out<$c>);
            type Proof = TIPAWithSSMProof<$ip, $l, $c, P, D64>;
            type Mirror = (Vec<Step<$l, Ssm, $c>>, (Msg<$l>, Fr), Key<$l>, <P as Pairing>::G2);
            const NAME: &'static str = $name;
            const ATTACKS: &'static [&'static str] =
                &["comp-la", "comp-lt", "comp-ra", "comp-rt", "base-a", "base-a-t", "false-claim", "unstructured", "ck-a", "kzg-a", "pairing-trade", "weak-fs"];
            const FINDINGS: &'static [&'static str] = &["weak-fs"];

            fn claims(s: &mut Self::Stmt) -> Vec<usize> {
                vec![leaves::<P, _>(&mut s.0).len() + leaves::<P, _>(&mut s.1).len()]
            }
            fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
                let (srs, ck_t) = <TIPAWithSSM<$ip, $l, $c, P, D64>>::setup(rng, 1 << size.a).map_err(err)?;
                Ok((from_srs(&srs), ck_t))
            }
            fn vkey(k: &Self::Key) -> Self::VKey {
                (from_vsrs(&to_srs::<P>(&k.0).get_verifier_key()), k.1.clone())
            }
            fn witness(k: &Self::Key, rng: &mut SRng, _s: Size, shape: usize) -> Self::Wit {
                (shaped::<P, _>(rng, (k.0 .0.len() + 1) / 2, shape, 0), powers_base(rng, shape))
            }
            fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
                let (ck_a, _) = to_srs::<P>(&k.0).get_commitment_keys();
                let t = <$ip>::inner_product(&w.0, &structured_scalar_power(w.0.len(), &w.1)).map_err(err)?;
                Ok((<$l>::commit(&ck_a, &w.0).map_err(err)?, w.1, <$c>::commit(&[k.1.clone()], &[t]).map_err(err)?))
            }
            fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
                let srs = to_srs::<P>(&k.0);
                let (ck_a, _) = srs.get_commitment_keys();
                let b = structured_scalar_power(w.0.len(), &w.1);
                <TIPAWithSSM<$ip, $l, $c, P, D64>>::prove_with_structured_scalar_message(&srs, (&w.0, &b), (&ck_a, &k.1)).map_err(err)
            }
            fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
                <TIPAWithSSM<$ip, $l, $c, P, D64>>::verify_with_structured_scalar_message(&to_vsrs::<P>(&v.0), &v.1, (&s.0, &s.2), &s.1, p).map_err(err)
            }
            fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
                let srs = to_srs::<P>(&k.0);
                let (mut ka, _) = srs.get_commitment_keys();
                let (mut a, mut b) = (w.0.clone(), structured_scalar_power(w.0.len(), &w.1));
                let what = misfit(kind, rng, &mut a, &mut b, &mut ka, &mut || ())?;
                let r = <TIPAWithSSM<$ip, $l, $c, P, D64>>::prove_with_structured_scalar_message(&srs, (&a, &b), (&ka, &k.1));
                Some((what.into(), r.map(|_| ()).map_err(err)))
            }
            fn exempt(size: Size, part: Part, idx: usize) -> bool {
                match part {
                    // h_alpha plays no role: only one set of powers is used.
                    Part::VKey => (size.a == 0 && idx < 4) || idx == 3,
                    Part::Stmt => size.a == 0 && idx == 1,
                    // The opened right-hand scalar is recomputed by the verifier.
                    Part::Proof => idx == ssm_steps_len::<P, $l, $c>() * size.a + 1,
                }
            }
            fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
                let (mut s, mut m) = (s.clone(), m.clone());
                let vk = Self::vkey(k);
                let srs = to_srs::<P>(&k.0);
                let (ka, _) = srs.get_commitment_keys();
                let mut b = structured_scalar_power(w.0.len(), &w.1);
                if kind == "unstructured" {
                    let i = rng.below(b.len());
                    b[i] += rnz(rng);
                    let p = <TIPAWithSSM<$ip, $l, $c, P, D64>>::prove_with_structured_scalar_message(&srs, (&w.0, &b), (&ka, &k.1)).ok()?;
                    let t = <$ip>::inner_product(&w.0, &b).ok()?;
                    s.2 = <$c>::commit(&[k.1.clone()], &[t]).ok()?;
                    return Some((vk, s, quiet(|| dec_trusted(&enc(&p)))?));
                }
                let kzg_challenge = |s: &Self::Stmt, m: &Self::Mirror| -> Option<Fr> {
                    let p: Self::Proof = quiet(|| dec_trusted(&enc(m)))?;
                    last_challenge(&with_log(|| Self::verify(&vk, s, &p)).1)
                };
                if kind == "pairing-trade" {
                    let (p, s0): (Self::Proof, _) = (quiet(|| dec_trusted(&enc(&m)))?, s.clone());
                    let log = with_log(|| Self::verify(&vk, &s0, &p)).1;
                    let c = last_challenge(&log)?;
                    let (g, h) = (vk.0 .0, vk.0 .1);
                    let n = quiet(|| leaves::<P, _>(&mut m).len());
                    let mut spots = vec![Spot { stmt: false, idx: n - 1, base: (vk.0 .2 - g * c, *srs.h_beta_powers.get(1)? - h * c) }];
                    spots.extend(quiet(|| t_spots(&mut s, true, g, h)));
                    trade_spots(rng, &mut s, &mut m, &spots, &challenge_values(&log))?;
                    return Some((vk, s, m));
                }
                if kind == "ck-a" || kind == "kzg-a" {
                    let x = rnz(rng);
                    let d = if kind == "ck-a" {
                        mulc(&m.2, &x)
                    } else {
                        let c = kzg_challenge(&s, &m)?;
                        m.3 = m.3 + srs.h_beta_powers[0] * x;
                        (*srs.h_beta_powers.get(1)? - srs.h_beta_powers[0] * c) * x
                    };
                    m.2 = m.2 + d;
                    s.0 = s.0.clone() + <$l>::commit(&[d], &[m.1 .0.clone()]).ok()?;
                    return Some((vk, s, m));
                }
                let challenges = |s: &Self::Stmt, m: &GMirror<$l, Ssm, $c>| ssm_challenges::<$ip, $l, $c>(&s.0, &s.2, m);
                let kb = vec![HomomorphicPlaceholderValue; ka.len()];
                let w = &(w.0.clone(), b);
                let mut g: GMirror<$l, Ssm, $c> = (m.0.clone(), m.1.clone());
                let mut ck = m.2.clone();
                gipa_attack!(P, kind, rng, k, w, s, g, challenges, $ip, $l, Ssm, $c, (ka, kb, k.1), { (m.2.clone(), HomomorphicPlaceholderValue) }, |wv| {
                    ck = wv.ck_base.0.clone();
                });
                m.0 = g.0;
                m.1 = g.1;
                if kind == "weak-fs" {
                    m.2 = ck;
                    let c = kzg_challenge(&s, &m)?;
                    let x = challenges(&s, &(m.0.clone(), m.1.clone()))?;
                    let xi = x.iter().map(|x| x.inverse().unwrap()).collect();
                    m.3 = prove_commitment_key_kzg_opening(&srs.h_beta_powers, &xi, &Fr::one(), &c).ok()?;
                }
                Some((vk, s, m))
            }
            fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
                let mut v = later::<P, $l, Ssm, $c>(&(m.0.clone(), m.1.clone()), 1);
                v.extend([1, 0]);
                v
            }
        }
    };
}
/// Elements per round of a structured-scalar argument (left and right commitments).
pub fn ssm_steps_len<P: Eng, L: DHC, C: DHC>() -> usize {
    6
}
tipa_ssm!(TipaSsmMulti, "tipa-ssm-multiexp", MultiexponentiationInnerProduct<<P as Pairing>::G1>, AFGHOCommitmentG1<P>, IdentityCommitment<<P as Pairing>::G1, Fr>);
tipa_ssm!(TipaSsmScalar, "tipa-ssm-scalar", ScalarInnerProduct<Fr>, PedersenCommitment<<P as Pairing>::G2>, PedersenCommitment<<P as Pairing>::G1>);
