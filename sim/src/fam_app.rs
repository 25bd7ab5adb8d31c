//! The applications: SIPP, Groth16 aggregation, polynomial commitments.
use crate::digests::{D32, D64};
use crate::el::*;
use crate::fam::*;
use crate::fam_ipa::*;
use crate::rng::SRng;
use crate::simrt::quiet;
use ark_bls12_381::Fr;
use ark_dh_commitments::{
    afgho16::AFGHOCommitmentG1,
    identity::{IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
};
use ark_ec::{
    pairing::{Pairing, PairingOutput},
    VariableBaseMSM,
};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_inner_products::{MultiexponentiationInnerProduct, ScalarInnerProduct};
use ark_ip_proofs::{
    applications::{groth16_aggregation as agg, poly_commit as pc, poly_commit::transparent as tpc},
    tipa::{prove_commitment_key_kzg_opening, structured_scalar_message::structured_scalar_power, SRS},
};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial, Polynomial};
use rand_chacha::rand_core::SeedableRng;
use std::marker::PhantomData;

pub fn err(e: impl std::fmt::Display) -> String {
    format!("error: {e}")
}
type G1Of<P> = <P as Pairing>::G1;
type A1Of<P> = <P as Pairing>::G1Affine;
type A2Of<P> = <P as Pairing>::G2Affine;

// ------------------------------------------------------------------------------------------ SIPP
pub struct Sipp<P>(PhantomData<fn() -> P>);
impl<P: Eng> Sipp<P> {
    /// The verifier's challenges for a statement and proof, read off the hash seam.
    fn challenges(s: &<Self as FamT>::Stmt, m: &<Self as FamT>::Mirror) -> Option<Vec<Fr>> {
        let p: <Self as FamT>::Proof = quiet(|| dec_trusted(&enc(m)))?;
        let outs = with_log(|| Self::verify(&(), s, &p)).1;
        // The first answer is the initial seed; one more per round.
        if outs.len() != m.len() + 1 {
            return None;
        }
        outs[1..]
            .iter()
            .map(|o| {
                let seed: [u8; 32] = o.as_slice().try_into().ok()?;
                let x: Fr = u128::rand(&mut rand_chacha::ChaChaRng::from_seed(seed)).into();
                Some(x)
            })
            .collect()
    }
}
impl<P: Eng> FamT for Sipp<P> {
    type P = P;
    type Key = ();
    type VKey = ();
    type Wit = (Vec<A1Of<P>>, Vec<A2Of<P>>, Vec<Fr>);
    type Stmt = (Vec<A1Of<P>>, Vec<A2Of<P>>, Vec<Fr>, PairingOutput<P>);
    type Proof = ark_sipp::Proof<P>;
    type Mirror = Vec<(PairingOutput<P>, PairingOutput<P>)>;
    const NAME: &'static str = "sipp";
    const ATTACKS: &'static [&'static str] = &["adaptive-value", "comp-a", "comp-b", "comp-r", "false-claim", "false-proved", "move-r"];
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        Size { a: pick_log(r, level).max(1), b: 0 }
    }
    fn claims(s: &mut Self::Stmt) -> Vec<usize> {
        vec![leaves::<P, _>(s).len() - 1]
    }
    fn setup(_rng: &mut SRng, size: Size) -> Result<(), String> {
        let _ = size;
        Ok(())
    }
    fn vkey(_: &()) {}
    fn witness(_: &(), rng: &mut SRng, size: Size, shape: usize) -> Self::Wit {
        let n = 1 << size.a;
        let (a, b) = (shaped::<P, _>(rng, n, shape, 0), shaped::<P, _>(rng, n, shape, 1));
        let r = match special(shape) {
            // A zero coefficient would make every other value of its points a true statement.
            Some(x) if !x.is_zero() => (0..n).map(|i| if i > 0 && rng.chance(1, 4) { rnz(rng) } else { x }).collect(),
            Some(_) => shaped::<P, Fr>(rng, n, 0, 0),
            None => shaped::<P, Fr>(rng, n, if shape % 2 == 0 { 0 } else { shape + 2 }, 0),
        };
        (a, b, r)
    }
    fn state(_: &(), w: &Self::Wit) -> Result<Self::Stmt, String> {
        let z = ark_sipp::product_of_pairings_with_coeffs::<P>(&w.0, &w.1, &w.2);
        Ok((w.0.clone(), w.1.clone(), w.2.clone(), z))
    }
    fn prove(_: &(), w: &Self::Wit, s: &Self::Stmt) -> Result<Self::Proof, String> {
        ark_sipp::SIPP::<P, D32>::prove(&w.0, &w.1, &w.2, s.3).map_err(|_| "refused".into())
    }
    fn verify(_: &(), s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        ark_sipp::SIPP::<P, D32>::verify(&s.0, &s.1, &s.2, s.3, p).map_err(|_| "refused".into())
    }
    fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &(), w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<((), Self::Stmt, Self::Mirror)> {
        let (mut s, mut m) = (s.clone(), m.clone());
        let n = w.0.len();
        let rounds = m.len();
        // The share of index i in the folded vectors.
        let weight = |xs: &[Fr], i: usize| -> Fr {
            (0..rounds).filter(|j| i & (1 << (rounds - j - 1)) != 0).map(|j| xs[j]).product()
        };
        let pick2 = |rng: &mut SRng| {
            let i = rng.below(n);
            let j = (i + 1 + rng.below(n - 1)) % n;
            (i, j)
        };
        match kind {
            "adaptive-value" => {
                // Change a round message, see the challenge it leads to, and move the claim accordingly.
                let j = rng.below(rounds);
                let d: PairingOutput<P> = P::gt(&rnz(rng));
                let left = rng.chance(1, 2);
                if left {
                    m[j].0 = m[j].0 + d
                } else {
                    m[j].1 = m[j].1 + d
                }
                let x = Self::challenges(&s, &m)?[j];
                s.3 = s.3 - d * if left { x } else { x.inverse()? };
            }
            "comp-a" => {
                let x = Self::challenges(&s, &m)?;
                let (i, j) = pick2(rng);
                let d = rnz(rng);
                let ti = (weight(&x, i) * s.2[i]).inverse()?;
                let tj = (weight(&x, j) * s.2[j]).inverse()?;
                s.0[i] = s.0[i].plus(&El::<P>::of(&(d * ti)));
                s.0[j] = s.0[j].plus(&El::<P>::of(&(-d * tj)));
            }
            "comp-b" => {
                let x = Self::challenges(&s, &m)?;
                let (i, j) = pick2(rng);
                let d = rnz(rng);
                s.1[i] = s.1[i].plus(&El::<P>::of(&(d * weight(&x, i))));
                s.1[j] = s.1[j].plus(&El::<P>::of(&(-d * weight(&x, j))));
            }
            "comp-r" => {
                // Two equal points let coefficients be traded between them.
                let mut w = w.clone();
                let (i, j) = pick2(rng);
                w.0[j] = w.0[i];
                s = Self::state(k, &w).ok()?;
                let p = Self::prove(k, &w, &s).ok()?;
                m = quiet(|| dec_trusted(&enc(&p)))?;
                let x = Self::challenges(&s, &m)?;
                let d = rnz(rng);
                s.2[i] += d * weight(&x, i).inverse()?;
                s.2[j] -= d * weight(&x, j).inverse()?;
            }
            "move-r" => {
                // a_i*c with r_i/c: the same product, but another statement. (With a single round no
                // message depends on a challenge, and the proof is the honest one for both.)
                if rounds < 2 {
                    return None;
                }
                let i = rng.below(n);
                let c = rnz(rng) + Fr::one();
                s.0[i] = s.0[i].times(&c);
                s.2[i] *= c.inverse()?;
            }
            "false-claim" => s.3 = s.3 * rnz(rng),
            "false-proved" => {
                // The whole protocol run honestly on a false claim.
                s.3 = s.3 + P::gt(&rnz(rng));
                let p = Self::prove(k, w, &s).ok()?;
                m = quiet(|| dec_trusted(&enc(&p)))?;
            }
            _ => return None,
        }
        Some(((), s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        let k = m.len();
        (0..k).flat_map(|j| [k - j, k - j]).collect()
    }
    fn after_statement(size: Size) -> usize {
        size.a
    }
}

// ----------------------------------------------------------------------------------- Aggregation
pub type VkT<P> = ((A1Of<P>, A2Of<P>, A2Of<P>, A2Of<P>), Vec<A1Of<P>>);
fn to_vk<P: Eng>(v: &VkT<P>) -> ark_groth16::VerifyingKey<P> {
    ark_groth16::VerifyingKey { alpha_g1: v.0 .0, beta_g2: v.0 .1, gamma_g2: v.0 .2, delta_g2: v.0 .3, gamma_abc_g1: v.1.clone() }
}
pub struct Agg<P>(PhantomData<fn() -> P>);
/// alpha, beta, gamma, delta; logarithms of the public-input basis.
type Trapdoor = (Vec<Fr>, Vec<Fr>);
impl<P: Eng> Agg<P> {
    fn ic(t: &Trapdoor, inputs: &[Fr]) -> Fr {
        t.1[0] + inputs.iter().zip(&t.1[1..]).map(|(a, b)| *a * b).sum::<Fr>()
    }
    fn proofs(w: &<Self as FamT>::Wit) -> Vec<ark_groth16::Proof<P>> {
        w.0.iter().map(|p| ark_groth16::Proof { a: p.0, b: p.1, c: p.2 }).collect()
    }
    fn r_of(v: &<Self as FamT>::VKey, s: &Vec<Vec<Fr>>, m: &<Self as FamT>::Mirror) -> Option<Fr> {
        let p: <Self as FamT>::Proof = quiet(|| dec_trusted(&enc(m)))?;
        Fr::from_random_bytes(with_log(|| Self::verify(v, s, &p)).1.first()?)
    }
    fn aggregate(k: &<Self as FamT>::Key, w: &<Self as FamT>::Wit) -> Option<<Self as FamT>::Mirror> {
        let p = Self::prove(k, w, &w.1).ok()?;
        quiet(|| dec_trusted(&enc(&p)))
    }
    fn set(w: &mut <Self as FamT>::Wit, i: usize) {
        let l = &w.2[i];
        w.0[i] = (El::<P>::of(&l.0), El::<P>::of(&l.1), El::<P>::of(&l.2));
    }
}
/// Numbers of public inputs are below this; multiples of it select special verification keys.
const INPUTS: usize = 16;
impl<P: Eng> FamT for Agg<P> {
    type P = P;
    type Key = (SrsT<P>, VkT<P>, Trapdoor);
    type VKey = (VSrsT<P>, VkT<P>);
    /// Proofs, their inputs, and the logarithms the simulated circuit prover knows.
    type Wit = (Vec<(A1Of<P>, A2Of<P>, A1Of<P>)>, Vec<Vec<Fr>>, Vec<(Fr, Fr, Fr)>);
    type Stmt = Vec<Vec<Fr>>;
    type Proof = agg::AggregateProof<P, D64>;
    type Mirror = ((PairingOutput<P>, PairingOutput<P>, PairingOutput<P>, PairingOutput<P>), G1Of<P>, <TipaShift<P> as FamT>::Mirror, <TipaSsmMulti<P> as FamT>::Mirror);
    const NAME: &'static str = "groth16-aggregation";
    const ATTACKS: &'static [&'static str] = &[
        "false-one", "false-c", "trade-c", "comp-a", "comp-b", "comp-c", "claim-ab", "claim-c", "shift-both", "permute", "permute-inputs", "other-vk",
        "pairing-trade", "pairing-trade", "comp-inputs",
    ];
    const FINDINGS: &'static [&'static str] = &["comp-inputs"];
    const PLAIN_STATEMENT_TRADES: bool = true;
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        Size { a: pick_log(r, level), b: r.weighted(&[10, 30, 20, 20, 10, 10, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1]) + if r.chance(1, 10) { INPUTS * r.range(1, 3) } else { 0 } }
    }
    fn special_key(size: Size) -> bool {
        size.b >= INPUTS
    }
    fn claims(s: &mut Self::Stmt) -> Vec<usize> {
        (0..leaves::<P, _>(s).len()).collect()
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        let srs = agg::setup_inner_product::<P, D64, _>(rng, 1 << size.a).map_err(err)?;
        let mut t: Trapdoor = ((0..4).map(|_| rnz(rng)).collect(), (0..=size.b % INPUTS).map(|_| rnz(rng)).collect());
        if Self::special_key(size) {
            // A key that ignores some inputs, or weighs them alike.
            let l = t.1.len();
            match size.b / INPUTS {
                1 => t.1[rng.below(l)] = Fr::zero(),
                2 => t.1 = vec![t.1[0]; l],
                _ => t.1.iter_mut().for_each(|x| *x = Fr::zero()),
            }
        }
        let vk = quiet(|| {
            (
                (El::<P>::of(&t.0[0]), El::<P>::of(&t.0[1]), El::<P>::of(&t.0[2]), El::<P>::of(&t.0[3])),
                t.1.iter().map(|x| <A1Of<P> as El<P>>::of(x)).collect(),
            )
        });
        Ok((from_srs(&srs), vk, t))
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        (from_vsrs(&to_srs::<P>(&k.0).get_verifier_key()), k.1.clone())
    }
    fn witness(k: &Self::Key, rng: &mut SRng, size: Size, shape: usize) -> Self::Wit {
        let n = 1 << size.a;
        let inputs = size.b % INPUTS;
        let mut a: Vec<Fr> = shaped::<P, _>(rng, n, shape, 0);
        let mut b: Vec<Fr> = shaped::<P, _>(rng, n, shape, 1);
        // Special inputs for one proof only: every element of the circuit's key keeps its meaning.
        let marked = if n > 1 { rng.below(n) } else { 1 };
        let mut xs: Vec<Vec<Fr>> = (0..n)
            .map(|i| match special(shape) {
                Some(x) if i == marked => vec![x; inputs],
                Some(_) => shaped::<P, _>(rng, inputs, 0, 0),
                None => shaped::<P, _>(rng, inputs, if shape == 0 { 0 } else { shape + i }, 0),
            })
            .collect();
        let t = &k.2;
        // Proofs that occur twice, and proofs whose last element is the identity.
        let special = !generic(shape);
        for i in 1..n {
            if special && rng.chance(1, 6) {
                let j = rng.below(i);
                (a[i], b[i], xs[i]) = (a[j], b[j], xs[j].clone());
            }
        }
        let identities = if special { rng.below(3) } else { 0 };
        let mut w: Self::Wit = (vec![], xs, vec![]);
        for i in 0..n {
            if identities == 2 || (identities == 1 && rng.chance(1, 2)) {
                if a[i].is_zero() {
                    a[i] = rnz(rng);
                }
                b[i] = (t.0[0] * t.0[1] + t.0[2] * Self::ic(t, &w.1[i])) / a[i];
            }
            let c = (a[i] * b[i] - t.0[0] * t.0[1] - t.0[2] * Self::ic(t, &w.1[i])) / t.0[3];
            w.2.push((a[i], b[i], c));
            w.0.push(Default::default());
            Self::set(&mut w, i);
        }
        w
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        // The workload itself is checked: every proof is valid on its own.
        quiet(|| {
            let pvk = ark_groth16::prepare_verifying_key(&to_vk::<P>(&k.1));
            for (p, x) in Self::proofs(w).iter().zip(&w.1) {
                assert!(ark_groth16::Groth16::<P>::verify_proof(&pvk, p, x).expect("well-formed"), "harness: simulated circuit proof");
            }
        });
        Ok(w.1.clone())
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        agg::aggregate_proofs::<P, D64>(&to_srs::<P>(&k.0), &Self::proofs(w)).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        agg::verify_aggregate_proof::<P, D64>(&to_vsrs::<P>(&v.0), &to_vk::<P>(&v.1), s, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        match part {
            // A reference string for one proof is just the generators.
            Part::VKey => size.a == 0 && idx < 4,
            // A single public input that is multiplied by nothing does not exist; all inputs count.
            Part::Stmt => false,
            Part::Proof => idx == 5 + 6 * size.a + 6 + 6 * size.a + 1,
        }
    }
    fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let (mut s, mut m, mut w) = (s.clone(), m.clone(), w.clone());
        let mut vk = Self::vkey(k);
        let n = w.0.len();
        let t = &k.2;
        if n < 2 && !["false-one", "false-c", "claim-ab", "claim-c", "shift-both", "other-vk"].contains(&kind) {
            return None;
        }
        let i = rng.below(n);
        let j = if n > 1 { (i + 1 + rng.below(n - 1)) % n } else { 0 };
        let d = rnz(rng);
        let rp = |r: Fr, i: usize| r.pow([i as u64]);
        let prior = Self::r_of(&vk, &s, &m)?;
        match kind {
            "false-one" => {
                if rng.chance(1, 2) {
                    w.2[i].0 += d
                } else {
                    w.2[i].1 += d
                }
                Self::set(&mut w, i);
                m = Self::aggregate(k, &w)?;
            }
            "false-c" => {
                w.2[i].2 += d;
                Self::set(&mut w, i);
                m = Self::aggregate(k, &w)?;
            }
            "trade-c" => {
                // The sum of the proofs stays right, the single proofs do not.
                w.2[i].2 += d;
                w.2[j].2 -= d;
                Self::set(&mut w, i);
                Self::set(&mut w, j);
                m = Self::aggregate(k, &w)?;
            }
            "comp-a" | "comp-b" | "comp-c" => {
                // Errors that cancel under the combination the honest aggregate led to.
                let (ri, rj) = (rp(prior, i), rp(prior, j));
                match kind {
                    "comp-a" => {
                        let (bi, bj) = (w.2[i].1, w.2[j].1);
                        w.2[i].0 += d * (bi * ri).inverse()?;
                        w.2[j].0 -= d * (bj * rj).inverse()?;
                    }
                    "comp-b" => {
                        let (ai, aj) = (w.2[i].0, w.2[j].0);
                        w.2[i].1 += d * (ai * ri).inverse()?;
                        w.2[j].1 -= d * (aj * rj).inverse()?;
                    }
                    _ => {
                        w.2[i].2 += d * ri.inverse()?;
                        w.2[j].2 -= d * rj.inverse()?;
                    }
                }
                Self::set(&mut w, i);
                Self::set(&mut w, j);
                m = Self::aggregate(k, &w)?;
            }
            "claim-ab" | "claim-c" => {
                // An invalid proof, and a claim that makes the final equation hold.
                if kind == "claim-ab" {
                    w.2[i].0 += d
                } else {
                    w.2[i].2 += d
                }
                Self::set(&mut w, i);
                m = Self::aggregate(k, &w)?;
                let r = Self::r_of(&vk, &s, &m)?;
                let sum = |f: &dyn Fn(usize) -> Fr| (0..n).map(|i| rp(r, i) * f(i)).sum::<Fr>();
                let base = sum(&|i| t.0[0] * t.0[1] + t.0[2] * Self::ic(t, &s[i]));
                if kind == "claim-ab" {
                    m.0 .3 = P::gt(&(base + t.0[3] * sum(&|i| w.2[i].2)));
                } else {
                    m.1 = El::<P>::of(&((sum(&|i| w.2[i].0 * w.2[i].1) - base) / t.0[3]));
                }
            }
            "shift-both" => {
                m.0 .3 = m.0 .3 + P::gt(&(d * t.0[3]));
                m.1 = m.1 + <G1Of<P> as El<P>>::of(&d);
            }
            "permute" => {
                if s[i] == s[j] {
                    return None;
                }
                w.0.swap(i, j);
                m = Self::aggregate(k, &w)?;
            }
            "permute-inputs" => {
                if s[i] == s[j] {
                    return None;
                }
                s.swap(i, j);
            }
            "other-vk" => {
                // The same circuit key but for one element of the public-input basis.
                let l = rng.below(vk.1 .1.len());
                vk.1 .1[l] = vk.1 .1[l].plus(&El::<P>::of(&d));
            }
            "pairing-trade" => {
                let p: Self::Proof = quiet(|| dec_trusted(&enc(&m)))?;
                let log = with_log(|| Self::verify(&vk, &s, &p)).1;
                let rounds = m.2 .0.len();
                let ch = |i: usize| Fr::from_random_bytes(log.get(i)?);
                let (ca, cc) = (ch(1 + rounds)?, ch(2 + 2 * rounds)?);
                let (g, h) = (vk.0 .0, vk.0 .1);
                let (ga, hb) = (*k.0 .0.get(1)?, *k.0 .1.get(1)?);
                let all = quiet(|| leaves::<P, _>(&mut m).len());
                let last = all - quiet(|| leaves::<P, _>(&mut m.3).len());
                let mut spots = vec![
                    Spot { stmt: false, idx: last - 2, base: (vk.0 .2 - g * ca, hb - h * ca) },
                    Spot { stmt: false, idx: last - 1, base: (ga - g * ca, vk.0 .3 - h * ca) },
                    Spot { stmt: false, idx: all - 1, base: (vk.0 .2 - g * cc, hb - h * cc) },
                ];
                if rng.chance(1, 3) {
                    // The claimed products.
                    spots.push(Spot { stmt: false, idx: 3, base: (g, h) });
                    spots.push(Spot { stmt: false, idx: 4, base: (<G1Of<P> as El<P>>::of(&t.0[3]), vk.1 .0 .3.into()) });
                }
                trade_spots(rng, &mut s, &mut m, &spots, &challenge_values(&log))?;
            }
            "comp-inputs" => {
                let l = if s[0].is_empty() { return None } else { rng.below(s[0].len()) };
                s[i][l] += d * rp(prior, i).inverse()?;
                s[j][l] -= d * rp(prior, j).inverse()?;
            }
            _ => return None,
        }
        Some((vk, s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        let mut v = vec![1, 1, 1, 0, 0];
        v.extend(TipaShift::<P>::later_challenges(&mut m.2));
        v.extend(TipaSsmMulti::<P>::later_challenges(&mut m.3));
        v
    }
}

// ------------------------------------------------------------------------ Polynomial commitments
type Poly = DensePolynomial<Fr>;
fn poly(c: &[Fr]) -> Poly {
    Poly::from_coefficients_slice(c)
}
fn naive(c: &[Fr], x: &Fr) -> Fr {
    c.iter().rev().fold(Fr::zero(), |a, c| a * x + c)
}
fn trim(c: &[Fr]) -> Vec<Fr> {
    let mut c = c.to_vec();
    while c.last().map_or(false, |x| x.is_zero()) {
        c.pop();
    }
    c
}
fn trusted_poly(rows: &[Vec<Fr>]) -> pc::BivariatePolynomial<Fr> {
    quiet(|| dec_trusted(&enc(&rows.iter().map(|r| trim(r)).collect::<Vec<_>>())).expect("bivariate polynomial"))
}
fn transparent_poly(rows: &[Vec<Fr>]) -> tpc::BivariatePolynomial<Fr> {
    quiet(|| dec_trusted(&enc(&rows.iter().map(|r| trim(r)).collect::<Vec<_>>())).expect("bivariate polynomial"))
}
/// Coefficients in a shape; for other shapes than `random` possibly fewer than the capacity.
fn coeffs<P: Eng>(rng: &mut SRng, n: usize, shape: usize) -> Vec<Fr> {
    let len = if generic(shape) { n } else { rng.range(0, n) };
    shaped::<P, _>(rng, len, shape, 0)
}
fn rows<P: Eng>(rng: &mut SRng, x: usize, y: usize, shape: usize) -> Vec<Vec<Fr>> {
    let len = if generic(shape) { x } else { rng.range(0, x) };
    (0..len).map(|_| coeffs::<P>(rng, y, shape)).collect()
}
fn point(rng: &mut SRng, shape: usize) -> Fr {
    if shape == 0 {
        return rnz(rng);
    }
    if let Some(x) = special(shape) {
        return if rng.chance(3, 4) { x } else { rnz(rng) };
    }
    match rng.below(8) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 | 4 => edge(rng),
        _ => rnz(rng),
    }
}
fn same_eval(naive: Fr, library: Fr) -> Result<Fr, String> {
    if naive == library {
        Ok(naive)
    } else {
        Err("evaluation differs from the polynomial's value".into())
    }
}
fn at2(rows: &[Vec<Fr>], x: &Fr, y: &Fr) -> Fr {
    let e: Vec<Fr> = rows.iter().map(|r| naive(r, y)).collect();
    naive(&e, x)
}
/// sum_i x^i row_i, padded to `n` coefficients.
fn combine(rows: &[Vec<Fr>], x: &Fr, n: usize) -> Vec<Fr> {
    let mut out = vec![Fr::zero(); n];
    for (i, r) in rows.iter().enumerate() {
        let w = x.pow([i as u64]);
        for (o, c) in out.iter_mut().zip(r) {
            *o += w * c;
        }
    }
    out
}

pub struct Kzg<P>(PhantomData<fn() -> P>);
impl<P: Eng> FamT for Kzg<P> {
    type P = P;
    type Key = (Vec<A1Of<P>>, VSrsT<P>);
    type VKey = VSrsT<P>;
    type Wit = (Vec<Fr>, Fr);
    type Stmt = (G1Of<P>, Fr, Fr);
    type Proof = G1Of<P>;
    type Mirror = G1Of<P>;
    const NAME: &'static str = "kzg";
    const REFUSES_BY_PANIC: bool = true;
    const ATTACKS: &'static [&'static str] = &["other-poly", "other-point", "wrong-eval"];
    fn claims(_: &mut Self::Stmt) -> Vec<usize> {
        vec![2]
    }
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        Size { a: if r.chance(1, 4) { r.below(3) } else { r.below(12 << (level * 2)) }, b: 0 }
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        let (p, v) = pc::KZG::<P>::setup(rng, size.a).map_err(err)?;
        Ok((p, from_vsrs(&v)))
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        k.1.clone()
    }
    fn witness(k: &Self::Key, rng: &mut SRng, _: Size, shape: usize) -> Self::Wit {
        (coeffs::<P>(rng, k.0.len(), shape), point(rng, shape))
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        let p = poly(&w.0);
        let e = same_eval(naive(&w.0, &w.1), p.evaluate(&w.1))?;
        Ok((pc::KZG::<P>::commit(&k.0, &p).map_err(err)?, w.1, e))
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        pc::KZG::<P>::open(&k.0, &poly(&w.0), &w.1).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        pc::KZG::<P>::verify(&to_vsrs::<P>(v), &s.0, &s.1, &s.2, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        match part {
            // g_beta plays no role; a constant has the same value everywhere and an identity opening.
            Part::VKey => idx == 2 || (size.a == 0 && idx != 0),
            Part::Stmt => size.a == 0 && idx == 1,
            Part::Proof => false,
        }
    }
    fn refusal(_kind: usize, rng: &mut SRng, k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        let n = k.0.len() + rng.range(1, 3);
        let p = poly(&shaped::<P, _>(rng, n, 0, 0));
        Some(("polynomial above the capacity".into(), pc::KZG::<P>::commit(&k.0, &p).map(|_| ()).map_err(err)))
    }
    fn attack(kind: &str, rng: &mut SRng, size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let (mut s, mut m) = (s.clone(), *m);
        match kind {
            "other-poly" => {
                let w2 = (shaped::<P, _>(rng, k.0.len(), 0, 0), w.1);
                m = Self::prove(k, &w2, &s).ok()?;
                s.2 = naive(&w2.0, &w2.1);
            }
            "other-point" => {
                if size.a == 0 {
                    return None;
                }
                let w2 = (w.0.clone(), rnz(rng));
                m = Self::prove(k, &w2, &s).ok()?;
                s.2 = naive(&w2.0, &w2.1);
            }
            "wrong-eval" => s.2 += rnz(rng),
            _ => return None,
        }
        Some((k.1.clone(), s, m))
    }
}

type Mipp<P> = MultiexponentiationInnerProduct<G1Of<P>>;
type MippT<P> = IdentityCommitment<G1Of<P>, Fr>;
type OpenMirror<P> = (<TipaSsmMulti<P> as FamT>::Mirror, G1Of<P>, G1Of<P>);
struct Opened<'a, P: Eng> {
    srs: SRS<P>,
    kzg: &'a [A1Of<P>],
    rows: Vec<Vec<Fr>>,
    x: Fr,
    y: Fr,
    eval: Fr,
    com: PairingOutput<P>,
}
impl<'a, P: Eng> Opened<'a, P> {
    /// A forged opening and the value it claims.
    fn attack(&self, kind: &str, rng: &mut SRng, m: &OpenMirror<P>, hashes: &dyn Fn(&OpenMirror<P>, Fr) -> Vec<Vec<u8>>) -> Option<(Fr, OpenMirror<P>)> {
        let mut m = m.clone();
        let ny = self.kzg.len();
        let mut y_eval = combine(&self.rows, &self.x, ny);
        let open = |c: &[Fr]| pc::KZG::<P>::open(self.kzg, &poly(c), &self.y).ok();
        match kind {
            "pairing-trade" => {
                let log = hashes(&m, self.eval);
                let c = last_challenge(&log)?;
                let v = from_vsrs(&self.srs.get_verifier_key());
                let (g, h) = (v.0, v.1);
                let n = quiet(|| leaves::<P, _>(&mut m).len());
                let spots = [
                    Spot { stmt: false, idx: n - 3, base: (v.2 - g * c, *self.srs.h_beta_powers.get(1)? - h * c) },
                    Spot { stmt: false, idx: n - 1, base: (G1Of::<P>::from(*self.kzg.get(1)?) - g * self.y, v.3 - h * self.y) },
                    Spot { stmt: false, idx: n - 2, base: (g, h) },
                ];
                trade_spots(rng, &mut (), &mut m, &spots, &challenge_values(&log))?;
                Some((self.eval, m))
            }
            "other-y-poly" => {
                // A consistent KZG opening of another polynomial than the committed combination.
                y_eval[rng.below(ny)] += rnz(rng);
                m.1 = G1Of::<P>::msm(self.kzg, &y_eval).ok()?;
                m.2 = open(&y_eval)?;
                Some((naive(&y_eval, &self.y), m))
            }
            "const-shift" => {
                let d = rnz(rng);
                m.1 = m.1 + <G1Of<P> as El<P>>::of(&d);
                Some((self.eval + d, m))
            }
            "wrong-eval" => Some((self.eval + rnz(rng), m)),
            "other-rows" => {
                let rows: Vec<Vec<Fr>> = self.rows.iter().map(|_| shaped::<P, _>(rng, ny, 0, 0)).collect();
                let srs = (clone_srs(&self.srs), self.kzg.to_vec());
                let p = trusted_poly(&rows);
                let ycoms = pc::BivariatePolynomialCommitment::<P, D64>::commit(&srs, &p).ok()?.1;
                let o = pc::BivariatePolynomialCommitment::<P, D64>::open(&srs, &p, &ycoms, &(self.x, self.y)).ok()?;
                Some((at2(&rows, &self.x, &self.y), quiet(|| dec_trusted(&enc(&o)))?))
            }
            "weak-fs" => {
                let (ck, _) = self.srs.get_commitment_keys();
                if ck.len() < 2 {
                    return None;
                }
                let srs = (clone_srs(&self.srs), self.kzg.to_vec());
                let ycoms = pc::BivariatePolynomialCommitment::<P, D64>::commit(&srs, &trusted_poly(&self.rows)).ok()?.1;
                let xs = structured_scalar_power(ck.len(), &self.x);
                let d: Vec<Fr> = shaped::<P, _>(rng, ny, 0, 0);
                let delta = IdentityOutput(vec![G1Of::<P>::msm(self.kzg, &d).ok()?]);
                let y_com = IdentityOutput(vec![m.1]);
                let rounds = ck.len().trailing_zeros() as usize;
                let chal = |g: &GMirror<AFGHOCommitmentG1<P>, Ssm, MippT<P>>| ssm_challenges::<Mipp<P>, AFGHOCommitmentG1<P>, MippT<P>>(&self.com, &y_com, g);
                let kb = vec![Ph {}; ck.len()];
                let wv = weak_fs::<Mipp<P>, AFGHOCommitmentG1<P>, Ssm, MippT<P>>(&ycoms, &xs, (&ck, &kb, &Ph {}), rng.below(rounds), delta, &|g| chal(g)?.first().copied())?;
                m.0 .0 = wv.mirror.0.clone();
                m.0 .1 = wv.mirror.1;
                m.0 .2 = wv.ck_base.0;
                m.1 = m.1 + wv.shift.0[0];
                for (o, d) in y_eval.iter_mut().zip(&d) {
                    *o -= wv.c * d;
                }
                m.2 = open(&y_eval)?;
                let eval = naive(&y_eval, &self.y);
                let c = last_challenge(&hashes(&m, eval))?;
                let t = chal(&wv.mirror)?;
                let ti = t.iter().map(|x| x.inverse().unwrap()).collect();
                m.0 .3 = prove_commitment_key_kzg_opening(&self.srs.h_beta_powers, &ti, &Fr::one(), &c).ok()?;
                Some((eval, m))
            }
            _ => None,
        }
    }
}
fn clone_srs<P: Eng>(s: &SRS<P>) -> SRS<P> {
    to_srs::<P>(&from_srs(s))
}
const OPEN_ATTACKS: &[&str] = &["pairing-trade", "other-y-poly", "const-shift", "wrong-eval", "other-rows", "other-point", "weak-fs"];
/// The x (or y) degree of a bivariate size: the keys hold 2^(size mod 16) rows, the degree asked
/// for may be less than what fills them.
fn degree_of(size: usize) -> usize {
    let log = key_log(size);
    let spare = if log < 2 { 0 } else { (size / 16) % (1 << (log - 1)) };
    (1 << log) - 1 - spare
}
fn key_log(size: usize) -> usize {
    (size % 16).min(11)
}
/// Trusted-setup bivariate openings: what may change without consequence.
fn exempt_trusted(x_log: usize, y_len: usize, part: Part, idx: usize, x_idx: Option<usize>, y_idx: Option<usize>) -> bool {
    match part {
        // With one row or one column some verification elements only meet identities.
        Part::VKey => x_log == 0 || y_len == 1,
        Part::Stmt => (Some(idx) == x_idx && x_log == 0) || (Some(idx) == y_idx && y_len == 1),
        Part::Proof => idx == 6 * x_log + 1,
    }
}

pub struct Biv<P>(PhantomData<fn() -> P>);
impl<P: Eng> FamT for Biv<P> {
    type P = P;
    type Key = (SrsT<P>, Vec<A1Of<P>>);
    type VKey = VSrsT<P>;
    type Wit = (Vec<Vec<Fr>>, Fr, Fr);
    type Stmt = (PairingOutput<P>, Fr, Fr, Fr);
    type Proof = pc::OpeningProof<P, D64>;
    type Mirror = OpenMirror<P>;
    const NAME: &'static str = "bivariate";
    const REFUSES_BY_PANIC: bool = true;
    const ATTACKS: &'static [&'static str] = OPEN_ATTACKS;
    const FINDINGS: &'static [&'static str] = &["weak-fs"];
    fn claims(_: &mut Self::Stmt) -> Vec<usize> {
        vec![3]
    }
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        let spare = if r.chance(1, 3) { r.below(64) } else { 0 };
        Size { a: pick_log(r, level).min(5 + level as usize) + 16 * spare, b: r.below(3 + 5 * (1 + level as usize)) }
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        let (s, k) = pc::BivariatePolynomialCommitment::<P, D64>::setup(rng, degree_of(size.a), size.b).map_err(err)?;
        Ok((from_srs(&s), k))
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        from_vsrs(&to_srs::<P>(&k.0).get_verifier_key())
    }
    fn witness(_: &Self::Key, rng: &mut SRng, size: Size, shape: usize) -> Self::Wit {
        (rows::<P>(rng, degree_of(size.a) + 1, size.b + 1, shape), point(rng, shape), point(rng, shape))
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        let p = trusted_poly(&w.0);
        let e = same_eval(at2(&w.0, &w.1, &w.2), p.evaluate(&(w.1, w.2)))?;
        let (com, _) = pc::BivariatePolynomialCommitment::<P, D64>::commit(&srs, &p).map_err(err)?;
        Ok((com, w.1, w.2, e))
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        let p = trusted_poly(&w.0);
        let (_, y) = pc::BivariatePolynomialCommitment::<P, D64>::commit(&srs, &p).map_err(err)?;
        pc::BivariatePolynomialCommitment::<P, D64>::open(&srs, &p, &y, &(w.1, w.2)).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        pc::BivariatePolynomialCommitment::<P, D64>::verify(&to_vsrs::<P>(v), &s.0, &(s.1, s.2), &s.3, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        exempt_trusted(key_log(size.a), size.b + 1, part, idx, Some(1), Some(2))
    }
    fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        let (nx, ny) = ((k.0 .1.len() + 1) / 2, k.1.len());
        let r: Vec<Vec<Fr>> = if kind % 2 == 0 {
            (0..nx + 1).map(|_| shaped::<P, _>(rng, ny, 0, 0)).collect()
        } else {
            let mut r: Vec<Vec<Fr>> = (0..nx).map(|_| shaped::<P, _>(rng, ny, 0, 0)).collect();
            let extra = rng.range(1, 3);
            let i = rng.below(nx);
            r[i] = shaped::<P, _>(rng, ny + extra, 0, 0);
            r
        };
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        Some(("polynomial above the capacity".into(), pc::BivariatePolynomialCommitment::<P, D64>::commit(&srs, &trusted_poly(&r)).map(|_| ()).map_err(err)))
    }
    fn attack(kind: &str, rng: &mut SRng, _size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let v = Self::vkey(k);
        let mut s = s.clone();
        if kind == "other-point" {
            if s.1 == s.2 || w.0.len() < 2 || k.1.len() < 2 {
                return None;
            }
            let w2 = (w.0.clone(), w.2, w.1);
            let p = Self::prove(k, &w2, &s).ok()?;
            s.3 = at2(&w.0, &w.2, &w.1);
            return Some((v, s, quiet(|| dec_trusted(&enc(&p)))?));
        }
        let o = Opened::<P> { srs: to_srs::<P>(&k.0), kzg: &k.1, rows: w.0.clone(), x: s.1, y: s.2, eval: s.3, com: s.0 };
        let hashes = |m: &Self::Mirror, e: Fr| {
            let s = (s.0, s.1, s.2, e);
            match quiet(|| dec_trusted::<Self::Proof>(&enc(m))) {
                Some(p) => with_log(|| Self::verify(&v, &s, &p)).1,
                None => vec![],
            }
        };
        let (e, m) = o.attack(kind, rng, m, &hashes)?;
        s.3 = e;
        Some((v, s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        let mut v = TipaSsmMulti::<P>::later_challenges(&mut m.0);
        v.extend([0, 0]);
        v
    }
}

/// Splits a univariate polynomial the way the committed bivariate one is laid out.
fn split(c: &[Fr], nx: usize, ny: usize) -> Vec<Vec<Fr>> {
    (0..nx).map(|i| (0..ny).map(|j| c.get(i * ny + j).copied().unwrap_or(Fr::zero())).collect()).collect()
}
fn uni_size(r: &mut SRng, level: u32) -> Size {
    let a = match r.below(10) {
        0 | 1 => r.below(4),
        2..=5 => r.below(16),
        6 | 7 => r.below(64),
        _ => match level {
            0 => r.below(80),
            1 => r.below(300),
            _ => r.below(1400),
        },
    };
    Size { a, b: 0 }
}

pub struct Uni<P>(PhantomData<fn() -> P>);
impl<P: Eng> FamT for Uni<P> {
    type P = P;
    type Key = (SrsT<P>, Vec<A1Of<P>>, u64);
    type VKey = VSrsT<P>;
    type Wit = (Vec<Fr>, Fr);
    type Stmt = (PairingOutput<P>, Fr, Fr, u64);
    type Proof = pc::OpeningProof<P, D64>;
    type Mirror = OpenMirror<P>;
    const NAME: &'static str = "univariate";
    const REFUSES_BY_PANIC: bool = true;
    const ATTACKS: &'static [&'static str] = &["pairing-trade", "other-y-poly", "const-shift", "wrong-eval", "other-rows", "other-point", "other-degree", "weak-fs"];
    const FINDINGS: &'static [&'static str] = &["weak-fs"];
    fn claims(_: &mut Self::Stmt) -> Vec<usize> {
        vec![2]
    }
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        uni_size(r, level)
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        let (s, k) = pc::UnivariatePolynomialCommitment::<P, D64>::setup(rng, size.a).map_err(err)?;
        Ok((from_srs(&s), k, size.a as u64))
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        from_vsrs(&to_srs::<P>(&k.0).get_verifier_key())
    }
    fn witness(k: &Self::Key, rng: &mut SRng, _: Size, shape: usize) -> Self::Wit {
        (coeffs::<P>(rng, k.2 as usize + 1, shape), point(rng, shape))
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        let (com, _) = pc::UnivariatePolynomialCommitment::<P, D64>::commit(&srs, &poly(&w.0)).map_err(err)?;
        Ok((com, w.1, naive(&w.0, &w.1), k.2))
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        let p = poly(&w.0);
        let (_, y) = pc::UnivariatePolynomialCommitment::<P, D64>::commit(&srs, &p).map_err(err)?;
        pc::UnivariatePolynomialCommitment::<P, D64>::open(&srs, &p, &y, &w.1).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        pc::UnivariatePolynomialCommitment::<P, D64>::verify(&to_vsrs::<P>(v), s.3 as usize, &s.0, &s.1, &s.2, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        if part == Part::Proof {
            // Right-hand scalar of the structured argument: two more elements than rounds take.
            return false;
        }
        // Degree zero: a constant, as in KZG.
        size.a == 0 && (part == Part::VKey || idx == 1)
    }
    fn exempt_in(m: &mut Self::Mirror, idx: usize) -> bool {
        idx == 6 * m.0 .0.len() + 1
    }
    fn refusal(_kind: usize, rng: &mut SRng, k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        let cap = (k.0 .1.len() + 1) / 2 * k.1.len();
        let n = cap + rng.range(1, 3);
        let srs = (to_srs::<P>(&k.0), k.1.clone());
        let p = poly(&shaped::<P, _>(rng, n, 0, 0));
        Some(("polynomial above the capacity".into(), pc::UnivariatePolynomialCommitment::<P, D64>::commit(&srs, &p).map(|_| ()).map_err(err)))
    }
    fn attack(kind: &str, rng: &mut SRng, size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let v = Self::vkey(k);
        let mut s = s.clone();
        let (nx, ny) = ((k.0 .1.len() + 1) / 2, k.1.len());
        match kind {
            "other-point" => {
                if size.a == 0 {
                    return None;
                }
                let w2 = (w.0.clone(), rnz(rng));
                let p = Self::prove(k, &w2, &s).ok()?;
                s.2 = naive(&w2.0, &w2.1);
                return Some((v, s, quiet(|| dec_trusted(&enc(&p)))?));
            }
            "other-degree" => {
                // A verifier configured for another layout.
                s.3 = [0u64, 3, 15, 63, 255, 1023][rng.below(6)];
                let same = (s.3 as usize).max(size.a) <= 3 && (s.3 == 0) == (size.a == 0);
                let class = |d: u64| (((d + 1) as f64).sqrt().ceil() as u64).next_power_of_two();
                // (At these points other layouts combine the rows in the same way.)
                let unlike = s.1 == Fr::zero() || s.1.pow([1u64 << 16]).is_one();
                if same || unlike || nx == 1 || class(s.3) == class(size.a as u64) {
                    return None;
                }
                return Some((v, s, m.clone()));
            }
            _ => {}
        }
        let x = s.1.pow([ny as u64]);
        let o = Opened::<P> { srs: to_srs::<P>(&k.0), kzg: &k.1, rows: split(&w.0, nx, ny), x, y: s.1, eval: s.2, com: s.0 };
        let hashes = |m: &Self::Mirror, e: Fr| {
            let s = (s.0, s.1, e, s.3);
            match quiet(|| dec_trusted::<Self::Proof>(&enc(m))) {
                Some(p) => with_log(|| Self::verify(&v, &s, &p)).1,
                None => vec![],
            }
        };
        let (e, m) = o.attack(kind, rng, m, &hashes)?;
        s.2 = e;
        Some((v, s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        Biv::<P>::later_challenges(m)
    }
}

type TMirror<P> = (<SsmMulti<P> as FamT>::Mirror, G1Of<P>, GMirror<PedersenCommitment<G1Of<P>>, Ssm, IdentityCommitment<Fr, Fr>>);
type TKey<P> = (Vec<G1Of<P>>, Vec<<P as Pairing>::G2>);
struct TOpened<'a, P: Eng> {
    ck: &'a TKey<P>,
    rows: Vec<Vec<Fr>>,
    x: Fr,
    y: Fr,
    eval: Fr,
}
impl<'a, P: Eng> TOpened<'a, P> {
    fn attack(&self, kind: &str, rng: &mut SRng, m: &TMirror<P>) -> Option<(Fr, TMirror<P>)> {
        let mut m = m.clone();
        let (nx, ny) = (self.ck.1.len(), self.ck.0.len());
        let reopen = |rows: &[Vec<Fr>]| -> Option<TMirror<P>> {
            let p = transparent_poly(rows);
            let y = tpc::BivariatePolynomialCommitment::<P, D64>::commit(self.ck, &p).ok()?.1;
            let o = tpc::BivariatePolynomialCommitment::<P, D64>::open(self.ck, &p, &y, &(self.x, self.y)).ok()?;
            quiet(|| dec_trusted(&enc(&o)))
        };
        match kind {
            "other-y-poly" => {
                // First tier for another polynomial, second tier for the committed one.
                let mut rows = self.rows.clone();
                let (i, j) = (rng.below(nx), rng.below(ny));
                rows.resize(nx, vec![]);
                rows[i].resize(ny, Fr::zero());
                rows[i][j] += rnz(rng);
                let o = reopen(&rows)?;
                m.1 = o.1;
                m.2 = o.2;
                Some((at2(&rows, &self.x, &self.y), m))
            }
            "wrong-eval" => Some((self.eval + rnz(rng), m)),
            "other-rows" => {
                let rows: Vec<Vec<Fr>> = (0..nx).map(|_| shaped::<P, _>(rng, ny, 0, 0)).collect();
                Some((at2(&rows, &self.x, &self.y), reopen(&rows)?))
            }
            "weak-fs" => {
                if ny < 2 {
                    return None;
                }
                let y_eval = combine(&self.rows, &self.x, ny);
                let ys = structured_scalar_power(ny, &self.y);
                let com = m.1;
                let t = IdentityOutput(vec![self.eval]);
                let kb = vec![Ph {}; ny];
                let rounds = ny.trailing_zeros() as usize;
                type L<P> = PedersenCommitment<<P as Pairing>::G1>;
                type T = IdentityCommitment<Fr, Fr>;
                let wv = weak_fs::<ScalarInnerProduct<Fr>, L<P>, Ssm, T>(
                    &y_eval,
                    &ys,
                    (&self.ck.0, &kb, &Ph {}),
                    rng.below(rounds),
                    IdentityOutput(vec![rnz(rng)]),
                    &|g| ssm_challenges::<ScalarInnerProduct<Fr>, L<P>, T>(&com, &t, g)?.first().copied(),
                )?;
                m.2 = wv.mirror.clone();
                Some((self.eval + wv.shift.0[0], m))
            }
            _ => None,
        }
    }
}
const T_ATTACKS: &[&str] = &["other-y-poly", "wrong-eval", "other-rows", "other-point", "weak-fs"];

pub struct TBiv<P>(PhantomData<fn() -> P>);
impl<P: Eng> FamT for TBiv<P> {
    type P = P;
    type Key = TKey<P>;
    type VKey = TKey<P>;
    type Wit = (Vec<Vec<Fr>>, Fr, Fr);
    type Stmt = (PairingOutput<P>, Fr, Fr, Fr);
    type Proof = tpc::OpeningProof<P, D64>;
    type Mirror = TMirror<P>;
    const NAME: &'static str = "transparent-bivariate";
    const REFUSES_BY_PANIC: bool = true;
    const ATTACKS: &'static [&'static str] = T_ATTACKS;
    const FINDINGS: &'static [&'static str] = &["weak-fs"];
    fn claims(_: &mut Self::Stmt) -> Vec<usize> {
        vec![3]
    }
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        let mut spare = || if r.chance(1, 3) { 16 * r.below(64) } else { 0 };
        let (a, b) = (spare(), spare());
        Size { a: pick_log(r, level).min(4 + level as usize) + a, b: pick_log(r, level).min(5 + level as usize) + b }
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        tpc::BivariatePolynomialCommitment::<P, D64>::setup(rng, degree_of(size.a), degree_of(size.b)).map_err(err)
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        k.clone()
    }
    fn witness(_: &Self::Key, rng: &mut SRng, size: Size, shape: usize) -> Self::Wit {
        (rows::<P>(rng, degree_of(size.a) + 1, degree_of(size.b) + 1, shape), point(rng, shape), point(rng, shape))
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        let p = transparent_poly(&w.0);
        let e = same_eval(at2(&w.0, &w.1, &w.2), p.evaluate(&(w.1, w.2)))?;
        let (com, _) = tpc::BivariatePolynomialCommitment::<P, D64>::commit(k, &p).map_err(err)?;
        Ok((com, w.1, w.2, e))
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        let p = transparent_poly(&w.0);
        let (_, y) = tpc::BivariatePolynomialCommitment::<P, D64>::commit(k, &p).map_err(err)?;
        tpc::BivariatePolynomialCommitment::<P, D64>::open(k, &p, &y, &(w.1, w.2)).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        tpc::BivariatePolynomialCommitment::<P, D64>::verify(v, &s.0, &(s.1, s.2), &s.3, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        part == Part::Stmt && ((idx == 1 && key_log(size.a) == 0) || (idx == 2 && key_log(size.b) == 0))
    }
    fn refusal(kind: usize, rng: &mut SRng, k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        let (nx, ny) = (k.1.len(), k.0.len());
        let mut r: Vec<Vec<Fr>> = (0..nx).map(|_| shaped::<P, _>(rng, ny, 0, 0)).collect();
        if kind % 2 == 0 {
            r.push(shaped::<P, _>(rng, ny, 0, 0));
        } else {
            let i = rng.below(nx);
            let extra = rng.range(1, 3);
            r[i] = shaped::<P, _>(rng, ny + extra, 0, 0);
        }
        Some(("polynomial above the capacity".into(), tpc::BivariatePolynomialCommitment::<P, D64>::commit(k, &transparent_poly(&r)).map(|_| ()).map_err(err)))
    }
    fn attack(kind: &str, rng: &mut SRng, size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let mut s = s.clone();
        if kind == "other-point" {
            if s.1 == s.2 || key_log(size.a) == 0 || key_log(size.b) == 0 {
                return None;
            }
            let w2 = (w.0.clone(), w.2, w.1);
            let p = Self::prove(k, &w2, &s).ok()?;
            s.3 = at2(&w.0, &w.2, &w.1);
            return Some((k.clone(), s, quiet(|| dec_trusted(&enc(&p)))?));
        }
        let o = TOpened::<P> { ck: k, rows: w.0.clone(), x: s.1, y: s.2, eval: s.3 };
        let (e, m) = o.attack(kind, rng, m)?;
        s.3 = e;
        Some((k.clone(), s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        let mut v = SsmMulti::<P>::later_challenges(&mut m.0);
        v.push(0);
        let steps = m.2 .0.len();
        for i in 0..steps {
            let n = leaves::<P, _>(&mut m.2 .0[i].clone()).len();
            v.extend(vec![i + 1; n]);
        }
        v.extend([0, 0]);
        v
    }
}

pub struct TUni<P>(PhantomData<fn() -> P>);
impl<P: Eng> FamT for TUni<P> {
    type P = P;
    type Key = (TKey<P>, u64);
    type VKey = TKey<P>;
    type Wit = (Vec<Fr>, Fr);
    type Stmt = (PairingOutput<P>, Fr, Fr);
    type Proof = tpc::OpeningProof<P, D64>;
    type Mirror = TMirror<P>;
    const NAME: &'static str = "transparent-univariate";
    const REFUSES_BY_PANIC: bool = true;
    const ATTACKS: &'static [&'static str] = T_ATTACKS;
    const FINDINGS: &'static [&'static str] = &["weak-fs"];
    fn claims(_: &mut Self::Stmt) -> Vec<usize> {
        vec![2]
    }
    fn pick_size(r: &mut SRng, level: u32) -> Size {
        let s = uni_size(r, level);
        Size { a: s.a.min(300), b: 0 }
    }
    fn setup(rng: &mut SRng, size: Size) -> Result<Self::Key, String> {
        Ok((tpc::UnivariatePolynomialCommitment::<P, D64>::setup(rng, size.a).map_err(err)?, size.a as u64))
    }
    fn vkey(k: &Self::Key) -> Self::VKey {
        k.0.clone()
    }
    fn witness(k: &Self::Key, rng: &mut SRng, _: Size, shape: usize) -> Self::Wit {
        (coeffs::<P>(rng, k.1 as usize + 1, shape), point(rng, shape))
    }
    fn state(k: &Self::Key, w: &Self::Wit) -> Result<Self::Stmt, String> {
        let (com, _) = tpc::UnivariatePolynomialCommitment::<P, D64>::commit(&k.0, &poly(&w.0)).map_err(err)?;
        Ok((com, w.1, naive(&w.0, &w.1)))
    }
    fn prove(k: &Self::Key, w: &Self::Wit, _s: &Self::Stmt) -> Result<Self::Proof, String> {
        let p = poly(&w.0);
        let (_, y) = tpc::UnivariatePolynomialCommitment::<P, D64>::commit(&k.0, &p).map_err(err)?;
        tpc::UnivariatePolynomialCommitment::<P, D64>::open(&k.0, &p, &y, &w.1).map_err(err)
    }
    fn verify(v: &Self::VKey, s: &Self::Stmt, p: &Self::Proof) -> Result<bool, String> {
        tpc::UnivariatePolynomialCommitment::<P, D64>::verify(v, &s.0, &s.1, &s.2, p).map_err(err)
    }
    fn exempt(size: Size, part: Part, idx: usize) -> bool {
        part == Part::Stmt && idx == 1 && size.a == 0
    }
    fn refusal(_kind: usize, rng: &mut SRng, k: &Self::Key, _w: &Self::Wit, _s: &Self::Stmt) -> Option<(String, Result<(), String>)> {
        let n = k.0 .0.len() * k.0 .1.len() + rng.range(1, 3);
        let p = poly(&shaped::<P, _>(rng, n, 0, 0));
        Some(("polynomial above the capacity".into(), tpc::UnivariatePolynomialCommitment::<P, D64>::commit(&k.0, &p).map(|_| ()).map_err(err)))
    }
    fn attack(kind: &str, rng: &mut SRng, size: Size, k: &Self::Key, w: &Self::Wit, s: &Self::Stmt, m: &Self::Mirror) -> Option<(Self::VKey, Self::Stmt, Self::Mirror)> {
        let mut s = s.clone();
        if kind == "other-point" {
            if size.a == 0 {
                return None;
            }
            let w2 = (w.0.clone(), rnz(rng));
            let p = Self::prove(k, &w2, &s).ok()?;
            s.2 = naive(&w2.0, &w2.1);
            return Some((k.0.clone(), s, quiet(|| dec_trusted(&enc(&p)))?));
        }
        let (nx, ny) = (k.0 .1.len(), k.0 .0.len());
        let o = TOpened::<P> { ck: &k.0, rows: split(&w.0, nx, ny), x: s.1.pow([ny as u64]), y: s.1, eval: s.2 };
        let (e, m) = o.attack(kind, rng, m)?;
        s.2 = e;
        Some((k.0.clone(), s, m))
    }
    fn later_challenges(m: &mut Self::Mirror) -> Vec<usize> {
        TBiv::<P>::later_challenges(m)
    }
}
