//! An ideal pairing engine behind the `Pairing` seam: G1 and G2 are written by their discrete
//! logarithms (so that oracles can check group statements in the scalar field), GT is the real
//! order-r subgroup of a quadratic extension field, with a real final exponentiation. Every
//! expensive operation is a scheduling point. All protocol code runs unmodified on top of it.
use crate::simrt::op_point;
use ark_bls12_381::Fr;
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM,
};
use ark_ff::{Field, Fp2, Fp2Config, Fp320, MontBackend, MontConfig, MontFp, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write};
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use std::borrow::Borrow;
use std::fmt;
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use zeroize::Zeroize;

#[derive(MontConfig)]
#[modulus = "11955379539928771429314084835866400210993445970120301423553634183585996510068963"]
#[generator = "2"]
pub struct TqConfig;
/// Base field of the target group; r divides p + 1.
pub type Tq = Fp320<MontBackend<TqConfig, 5>>;

pub struct Tq2Config;
impl Fp2Config for Tq2Config {
    type Fp = Tq;
    const NONRESIDUE: Tq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Tq] = &[MontFp!("1"), MontFp!("-1")];
}
pub type Gt = Fp2<Tq2Config>;

/// Base of the Miller-loop values: its image under the final exponentiation generates GT.
fn ml_base() -> Gt {
    Gt::new(
        MontFp!("7045027199629133548879600954642405235421759477428526057212854154262066031011398"),
        MontFp!("8107934159036058050279804285528073374279782140135362503048360165790003388614931"),
    )
}
/// Hardware fault: the n-th group operation from now delivers a wrong result.
pub static GLITCH: crate::digests::Shared<u64> = crate::digests::Shared::new(0);
fn glitch() -> bool {
    let g = GLITCH.get();
    if *g == 0 || !crate::simrt::in_sim() || crate::simrt::is_quiet() {
        return false;
    }
    *g -= 1;
    *g == 0
}

/// (p + 1) / r
const HARD: [u64; 1] = [228];

/// gt^x, computed without touching the code under test (oracle side).
pub fn gt_pow(x: &Fr) -> PairingOutput<Toy> {
    let m = ml_base().pow(x.into_bigint());
    PairingOutput(final_exp(m))
}
fn final_exp(f: Gt) -> Gt {
    let mut c = f;
    c.conjugate_in_place();
    (c * f.inverse().unwrap()).pow(HARD)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Toy;

pub struct Cfg<const N: u8>;
impl<const N: u8> CurveConfig for Cfg<N> {
    type BaseField = Fr;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Fr = MontFp!("1");
}

macro_rules! group {
    ($p:ident, $a:ident, $n:literal, $name:literal) => {
        /// Projective form: the discrete logarithm is x / z, so that values have many representations.
        #[derive(Clone, Copy)]
        pub struct $p { x: Fr, z: Fr }
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
        pub struct $a { pub log: Fr, sq: Fr }

        impl $a {
            pub fn at(log: Fr) -> Self { $a { log, sq: log.square() } }
        }
        impl $p {
            pub fn from_log(l: Fr) -> Self { $p { x: l, z: Fr::one() } }
            pub fn log(&self) -> Fr { if self.z.is_one() { self.x } else { self.x * self.z.inverse().unwrap() } }
        }
        impl Default for $p { fn default() -> Self { Self::from_log(Fr::zero()) } }
        impl PartialEq for $p { fn eq(&self, o: &Self) -> bool { self.x * o.z == o.x * self.z } }
        impl Eq for $p {}
        impl std::hash::Hash for $p { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.log().hash(h) } }
        impl fmt::Debug for $p { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}({})", $name, self.log()) } }
        impl fmt::Display for $p { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl fmt::Debug for $a { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}({})", $name, self.log) } }
        impl fmt::Display for $a { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
        impl Zeroize for $p { fn zeroize(&mut self) { *self = Self::default() } }
        impl Zeroize for $a { fn zeroize(&mut self) { { self.log.zeroize(); self.sq.zeroize() } } }
        impl From<$a> for $p { fn from(a: $a) -> $p { $p::from_log(a.log) } }
        impl From<$p> for $a { fn from(p: $p) -> $a { $a::at(p.log()) } }
        impl From<&$a> for $p { fn from(a: &$a) -> $p { $p::from_log(a.log) } }
        impl From<&$p> for $a { fn from(p: &$p) -> $a { $a::at(p.log()) } }

        impl<'a> AddAssign<&'a $p> for $p { fn add_assign(&mut self, o: &'a $p) {
            if self.z == o.z { self.x += o.x } else { self.x = self.x * o.z + o.x * self.z; self.z *= o.z; }
        } }
        impl<'a> SubAssign<&'a $p> for $p { fn sub_assign(&mut self, o: &'a $p) { *self += &-*o; } }
        impl AddAssign for $p { fn add_assign(&mut self, o: $p) { *self += &o } }
        impl SubAssign for $p { fn sub_assign(&mut self, o: $p) { *self -= &o } }
        impl Add for $p { type Output = $p; fn add(mut self, o: $p) -> $p { self += &o; self } }
        impl<'a> Add<&'a $p> for $p { type Output = $p; fn add(mut self, o: &'a $p) -> $p { self += o; self } }
        impl Sub for $p { type Output = $p; fn sub(mut self, o: $p) -> $p { self -= &o; self } }
        impl<'a> Sub<&'a $p> for $p { type Output = $p; fn sub(mut self, o: &'a $p) -> $p { self -= o; self } }
        impl Neg for $p { type Output = $p; fn neg(self) -> $p { $p { x: -self.x, z: self.z } } }
        impl Neg for $a { type Output = $a; fn neg(self) -> $a { $a::at(-self.log) } }
        impl AddAssign<$a> for $p { fn add_assign(&mut self, o: $a) { *self += &$p::from(o) } }
        impl<'a> AddAssign<&'a $a> for $p { fn add_assign(&mut self, o: &'a $a) { *self += &$p::from(*o) } }
        impl SubAssign<$a> for $p { fn sub_assign(&mut self, o: $a) { *self -= &$p::from(o) } }
        impl<'a> SubAssign<&'a $a> for $p { fn sub_assign(&mut self, o: &'a $a) { *self -= &$p::from(*o) } }
        impl Add<$a> for $p { type Output = $p; fn add(mut self, o: $a) -> $p { self += o; self } }
        impl<'a> Add<&'a $a> for $p { type Output = $p; fn add(mut self, o: &'a $a) -> $p { self += o; self } }
        impl Sub<$a> for $p { type Output = $p; fn sub(mut self, o: $a) -> $p { self -= o; self } }
        impl<'a> Sub<&'a $a> for $p { type Output = $p; fn sub(mut self, o: &'a $a) -> $p { self -= o; self } }
        impl Add<$a> for $a { type Output = $p; fn add(self, o: $a) -> $p { $p::from(self) + o } }
        impl<'a> Add<&'a $a> for $a { type Output = $p; fn add(self, o: &'a $a) -> $p { $p::from(self) + o } }
        impl Add<$p> for $a { type Output = $p; fn add(self, o: $p) -> $p { o + self } }
        impl<'a> Add<&'a $p> for $a { type Output = $p; fn add(self, o: &'a $p) -> $p { *o + self } }
        impl Sum<$p> for $p { fn sum<I: Iterator<Item = $p>>(i: I) -> $p { i.fold($p::default(), |a, b| a + b) } }
        impl<'a> Sum<&'a $p> for $p { fn sum<I: Iterator<Item = &'a $p>>(i: I) -> $p { i.fold($p::default(), |a, b| a + b) } }
        impl Sum<$a> for $p { fn sum<I: Iterator<Item = $a>>(i: I) -> $p { i.fold($p::default(), |a, b| a + b) } }
        impl<'a> Sum<&'a $a> for $p { fn sum<I: Iterator<Item = &'a $a>>(i: I) -> $p { i.fold($p::default(), |a, b| a + b) } }
        impl<T: Borrow<Fr>> MulAssign<T> for $p { fn mul_assign(&mut self, s: T) {
            op_point();
            // Scalar multiplication leaves the sum in a different projective representation.
            let s = s.borrow();
            let k = Fr::from(3u64) + self.x.square();
            let k = if k.is_zero() { Fr::one() } else { k };
            self.x = self.x * s * k;
            self.z *= k;
            if glitch() { self.x += Fr::from(7u64) }
        } }
        impl<T: Borrow<Fr>> Mul<T> for $p { type Output = $p; fn mul(mut self, s: T) -> $p { self *= s; self } }
        impl<T: Borrow<Fr>> Mul<T> for $a { type Output = $p; fn mul(self, s: T) -> $p { $p::from(self) * s } }
        impl Distribution<$p> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $p { op_point(); $p::from_log(Fr::rand(r)) } }
        impl Distribution<$a> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $a { op_point(); $a::at(Fr::rand(r)) } }
        impl Zero for $p { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.x.is_zero() } }

        // Wire form: the logarithm; uncompressed adds its square, so damaged points are detected
        // the way an off-curve point is.
        impl CanonicalSerialize for $a {
            fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
                self.log.serialize_with_mode(&mut w, c)?;
                if let Compress::No = c { self.log.square().serialize_with_mode(&mut w, c)?; }
                Ok(())
            }
            fn serialized_size(&self, c: Compress) -> usize { match c { Compress::Yes => 32, Compress::No => 64 } }
        }
        impl Valid for $a { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
        impl CanonicalDeserialize for $a {
            fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                let log = Fr::deserialize_with_mode(&mut r, c, v)?;
                if let Compress::No = c {
                    let sq = Fr::deserialize_with_mode(&mut r, c, v)?;
                    if let Validate::Yes = v { if sq != log.square() { return Err(SerializationError::InvalidData); } }
                }
                Ok($a::at(log))
            }
        }
        impl CanonicalSerialize for $p {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { $a::from(*self).serialize_with_mode(w, c) }
            fn serialized_size(&self, c: Compress) -> usize { $a::default().serialized_size(c) }
        }
        impl Valid for $p { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
        impl CanonicalDeserialize for $p {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok($a::deserialize_with_mode(r, c, v)?.into()) }
        }

        impl Group for $p {
            type ScalarField = Fr;
            fn generator() -> Self { $p::from_log(Fr::one()) }
            fn double_in_place(&mut self) -> &mut Self { self.x.double_in_place(); self }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
                op_point();
                let mut res = Self::zero();
                for b in ark_ff::BitIteratorBE::without_leading_zeros(o) { res.double_in_place(); if b { res += self; } }
                res
            }
        }
        impl ScalarMul for $p {
            type MulBase = $a;
            const NEGATION_IS_CHEAP: bool = true;
            fn batch_convert_to_mul_base(b: &[Self]) -> Vec<$a> { <$p as CurveGroup>::normalize_batch(b) }
        }
        impl VariableBaseMSM for $p {
            fn msm_bigint(bases: &[$a], bigints: &[<Fr as PrimeField>::BigInt]) -> Self {
                op_point();
                let mut x = Fr::zero();
                for (b, s) in bases.iter().zip(bigints) { x += b.log * Fr::from_bigint(*s).expect("reduced scalar"); }
                op_point();
                if glitch() { x += Fr::from(7u64) }
                $p::from_log(x)
            }
        }
        impl CurveGroup for $p {
            type Config = Cfg<$n>;
            type BaseField = Fr;
            type Affine = $a;
            type FullGroup = $a;
            fn normalize_batch(v: &[Self]) -> Vec<$a> {
                op_point();
                let mut v: Vec<$a> = v.iter().map(|p| $a::at(p.log())).collect();
                if glitch() { if let Some(x) = v.last_mut() { *x = $a::at(x.log + Fr::from(7u64)) } }
                v
            }
        }
        impl AffineRepr for $a {
            type Config = Cfg<$n>;
            type ScalarField = Fr;
            type BaseField = Fr;
            type Group = $p;
            fn xy(&self) -> Option<(&Fr, &Fr)> { if self.log.is_zero() { None } else { Some((&self.sq, &self.log)) } }
            fn zero() -> Self { $a::at(Fr::zero()) }
            fn generator() -> Self { $a::at(Fr::one()) }
            fn from_random_bytes(b: &[u8]) -> Option<Self> { Fr::from_random_bytes(b).map($a::at) }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> $p { $p::from(*self).mul_bigint(o) }
            fn clear_cofactor(&self) -> Self { *self }
            fn mul_by_cofactor_to_group(&self) -> $p { $p::from(*self) }
        }
    };
}
group!(TG1, TA1, 1, "G1");
group!(TG2, TA2, 2, "G2");

macro_rules! prepared {
    ($n:ident, $p:ident, $a:ident) => {
        #[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $n(pub $a);
        impl From<$p> for $n { fn from(p: $p) -> Self { $n($a::from(p)) } }
        impl From<$a> for $n { fn from(a: $a) -> Self { $n(a) } }
        impl<'a> From<&'a $p> for $n { fn from(p: &'a $p) -> Self { $n($a::from(*p)) } }
        impl<'a> From<&'a $a> for $n { fn from(a: &'a $a) -> Self { op_point(); $n(*a) } }
    };
}
prepared!(TP1, TG1, TA1);
prepared!(TP2, TG2, TA2);

impl Pairing for Toy {
    type BaseField = Fr;
    type ScalarField = Fr;
    type G1 = TG1;
    type G1Affine = TA1;
    type G1Prepared = TP1;
    type G2 = TG2;
    type G2Affine = TA2;
    type G2Prepared = TP2;
    type TargetField = Gt;

    fn multi_miller_loop(a: impl IntoIterator<Item = impl Into<TP1>>, b: impl IntoIterator<Item = impl Into<TP2>>) -> MillerLoopOutput<Self> {
        op_point();
        let mut e = Fr::zero();
        let mut n = 0u64;
        for (x, y) in a.into_iter().zip(b) {
            let (x, y): (TP1, TP2) = (x.into(), y.into());
            e += x.0.log * y.0.log;
            n += 1;
        }
        op_point();
        if glitch() {
            e += Fr::from(7u64);
        }
        if n == 0 {
            return MillerLoopOutput(Gt::one());
        }
        // A factor from the base field, removed only by the final exponentiation.
        let junk = Tq::from(n * 2 + 5);
        let mut f = ml_base().pow(e.into_bigint());
        f.mul_assign_by_fp(&junk);
        MillerLoopOutput(f)
    }

    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        op_point();
        if m.0.is_zero() {
            return None;
        }
        Some(PairingOutput(final_exp(m.0)))
    }
}
