//! Inner products of pseudo-random vectors. Also compiled into the program that uses the sequential
//! build of `ark-inner-products` alone.
use crate::rng::{hash_bytes, mix, SRng};
use ark_bls12_381::Fr;
use ark_ec::{pairing::Pairing, Group};
use ark_ff::{UniformRand, Zero};
use ark_inner_products::{cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct};
use ark_serialize::CanonicalSerialize;

pub const KINDS: &[&str] = &["pairing", "multiexp-g1", "multiexp-g2", "scalar", "multi-pairing"];

fn hash<T: CanonicalSerialize, E: ToString>(x: Result<T, E>) -> String {
    match x {
        Ok(x) => {
            let mut b = vec![];
            x.serialize_uncompressed(&mut b).expect("encoding");
            format!("{:x}", hash_bytes(&b))
        }
        Err(_) => "error".into(),
    }
}
fn vector<G: Group<ScalarField = Fr>>(r: &mut SRng, n: usize) -> Vec<G> {
    (0..n).map(|_| if r.chance(1, 5) { G::zero() } else { G::generator() * Fr::rand(r) }).collect()
}
/// One product; one in eight has vectors of different lengths.
pub fn entry<P: Pairing<ScalarField = Fr>>(kind: &str, n: usize, seed: u64) -> String {
    let r = &mut SRng::new(mix(&[seed, n as u64]));
    let m = if r.chance(1, 8) { r.below(n + 3) } else { n };
    let f = |r: &mut SRng, n: usize| (0..n).map(|_| if r.chance(1, 5) { Fr::zero() } else { Fr::rand(r) }).collect::<Vec<_>>();
    match kind {
        "pairing" => hash(PairingInnerProduct::<P>::inner_product(&vector::<P::G1>(r, n), &vector::<P::G2>(r, m))),
        "multiexp-g1" => hash(MultiexponentiationInnerProduct::<P::G1>::inner_product(&vector::<P::G1>(r, n), &f(r, m))),
        "multiexp-g2" => hash(MultiexponentiationInnerProduct::<P::G2>::inner_product(&vector::<P::G2>(r, n), &f(r, m))),
        "scalar" => hash(ScalarInnerProduct::<Fr>::inner_product(&f(r, n), &f(r, m))),
        "multi-pairing" => hash(cfg_multi_pairing::<P>(&vector::<P::G1>(r, n), &vector::<P::G2>(r, n)).ok_or("none")),
        k => panic!("harness: table {k}"),
    }
}

fn fill<T>(v: &mut Vec<T>, seed: u64, n: usize, one: impl Fn(&mut SRng) -> T) {
    let r = &mut SRng::new(seed);
    v.clear();
    v.extend((0..n).map(|_| one(r)));
}
/// Several products of vectors of one length. With `fresh` every operand has memory of its own
/// that stays in use; otherwise the operands of one product take the place of those before.
pub fn series<P: Pairing<ScalarField = Fr>>(kind: &str, n: usize, seed: u64, count: usize, fresh: bool) -> Vec<String> {
    fn go<A: 'static, B: 'static>(n: usize, seed: u64, count: usize, fresh: bool, a: impl Fn(&mut SRng) -> A, b: impl Fn(&mut SRng) -> B, f: impl Fn(&[A], &[B]) -> String) -> Vec<String> {
        let r = &mut SRng::new(seed);
        let (mut left, mut right) = (vec![], vec![]);
        let (mut ls, mut rs) = (r.u64(), r.u64());
        fill(&mut left, ls, n, &a);
        fill(&mut right, rs, n, &b);
        let mut used = vec![];
        let mut out = vec![];
        for _ in 0..count {
            out.push(f(&left, &right));
            let which = r.below(4);
            if which != 0 {
                ls = r.u64();
            }
            if which != 1 {
                rs = r.u64();
            }
            if fresh {
                used.push((std::mem::take(&mut left), std::mem::take(&mut right)));
                fill(&mut left, ls, n, &a);
                fill(&mut right, rs, n, &b);
            } else {
                if which != 0 {
                    fill(&mut left, ls, n, &a);
                }
                if which != 1 {
                    fill(&mut right, rs, n, &b);
                }
            }
        }
        out
    }
    fn group<G: Group<ScalarField = Fr>>(r: &mut SRng) -> G {
        if r.chance(1, 8) { G::zero() } else { G::generator() * Fr::rand(r) }
    }
    fn field(r: &mut SRng) -> Fr {
        if r.chance(1, 8) { Fr::zero() } else { Fr::rand(r) }
    }
    match kind {
        "pairing" => go(n, seed, count, fresh, group::<P::G1>, group::<P::G2>, |a, b| hash(PairingInnerProduct::<P>::inner_product(a, b))),
        "multiexp-g1" => go(n, seed, count, fresh, group::<P::G1>, field, |a, b| hash(MultiexponentiationInnerProduct::<P::G1>::inner_product(a, b))),
        "multiexp-g2" => go(n, seed, count, fresh, group::<P::G2>, field, |a, b| hash(MultiexponentiationInnerProduct::<P::G2>::inner_product(a, b))),
        "scalar" => go(n, seed, count, fresh, field, field, |a, b| hash(ScalarInnerProduct::<Fr>::inner_product(a, b))),
        "multi-pairing" => go(n, seed, count, fresh, group::<P::G1>, group::<P::G2>, |a, b| hash(cfg_multi_pairing::<P>(a, b).ok_or("none"))),
        k => panic!("harness: series {k}"),
    }
}
