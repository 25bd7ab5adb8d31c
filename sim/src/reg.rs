//! Registry of the families, by name.
use crate::fam::{Fam, F};
use crate::fam_app::*;
use crate::fam_ipa::*;
use crate::toy::Toy;
use ark_bls12_381::Bls12_381 as Bls;
use std::marker::PhantomData;

macro_rules! reg {
    ($($t:ident),*) => {
        static TOY: &[&(dyn Fam)] = &[$(&F::<$t<Toy>>(PhantomData)),*];
        static BLS: &[&(dyn Fam)] = &[$(&F::<$t<Bls>>(PhantomData)),*];
    };
}
reg!(
    GipaPairing, GipaMulti, GipaMultiAfgho, GipaScalar, GipaScalarId, SsmMulti, SsmScalar, TipaPairing, TipaShift, TipaMulti, TipaScalar,
    TipaMultiShift, TipaSsmMulti, TipaSsmScalar, Sipp, Agg, Kzg, Biv, Uni, TBiv, TUni
);

pub fn get(name: &str) -> Option<&'static dyn Fam> {
    TOY.iter().chain(BLS).find(|f| f.name() == name).copied()
}

pub const GIPA: &[&str] = &["gipa-pairing", "gipa-multiexp", "gipa-multiexp-afgho", "gipa-scalar", "gipa-scalar-identity", "gipa-ssm-multiexp", "gipa-ssm-scalar"];
pub const TIPA: &[&str] = &["tipa-pairing", "tipa-pairing-shift", "tipa-multiexp", "tipa-scalar", "tipa-multiexp-shift", "tipa-ssm-multiexp", "tipa-ssm-scalar"];
pub const SIPP: &[&str] = &["sipp"];
pub const AGG: &[&str] = &["groth16-aggregation"];
pub const POLY: &[&str] = &["kzg", "bivariate", "univariate", "transparent-bivariate", "transparent-univariate"];
pub fn all() -> Vec<&'static str> {
    [GIPA, TIPA, SIPP, AGG, POLY].concat()
}
