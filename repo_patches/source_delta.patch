From 4c9bb7733c6d42072f20b1a751beb2195beaaa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/11] fix: GIPA verifiers return an error for a proof with
 the wrong number of rounds

A received proof with too few or too many rounds made the verifier panic on an
assertion, or (with many rounds) first allocate 2^rounds exponents.
---
 ip_proofs/src/gipa.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..1f60bd9 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -369,6 +369,13 @@ where
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
         assert!(ck_a.len().is_power_of_two());
+        // Every round halves the keys, so a proof with any other number of rounds is malformed
+        if transcript.len() != ck_a.len().trailing_zeros() as usize {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                transcript.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From 9cd58f590e92ee9928c8405b7c524600594c0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 02/11] fix: TIPA proves and verifies statements of length one
 instead of panicking

With a single element there is no recursion round, so there is no last
challenge to unwrap when the KZG point is derived; use the default scalar as
GIPA does for its first round. This also lets a single Groth16 proof be
aggregated, and a zero-round proof from the network be judged without a panic.
---
 ip_proofs/src/tipa/mod.rs                       | 6 ++++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..0fd8418 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -198,7 +198,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -261,7 +262,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..e027392 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -241,7 +241,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -292,7 +293,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From 46d27f1bdb70762d25ee3d5bffd9daf819e827df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/11] fix: SIPP::verify returns an error for a proof with the
 wrong number of messages

The number of messages comes from the (untrusted) prover; asserting on it let a
malformed proof panic the verifier.
---
 sipp/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..f67c489 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -120,7 +120,9 @@ where
         assert_eq!(length, b.len());
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
-        assert_eq!(proof_len as f32, f32::log2(length as f32));
+        if proof_len != length.trailing_zeros() as usize {
+            return Err(());
+        }
 
         // TODO(psi): should we also input a succinct bilinear group description to the rng?
         let mut rng = {
-- 
2.43.0


From a44ef1044820f6d8fa4adc57e543314ae62f5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/11] fix: univariate polynomial commitment setup accepts
 degree zero

bivariate_degrees divided by a skew factor of zero for constant polynomials.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 6 +++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..64b0da5 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -293,7 +293,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 {
+            16_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..5a4ab93 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -222,7 +222,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 {
+            4_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From eddf3db62ad0906d6116879b8380924c9139a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/11] fix: verify_aggregate_proof checks the length of every
 public input vector

Only the first vector was checked (by an assertion): surplus inputs of any other
proof were silently ignored, and missing ones panicked.
---
 ip_proofs/src/applications/groth16_aggregation.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..a6e63d9 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -11,7 +11,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -169,6 +169,16 @@ where
     P: Pairing,
     D: Digest,
 {
+    // Every proof has one input per element of the verification key's public input basis
+    for inputs in public_inputs {
+        if inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                inputs.len() + 1,
+                vk.gamma_abc_g1.len(),
+            )));
+        }
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -209,7 +219,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From e473ed28b8cd6fd122405173a8c186b0b64f3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/11] fix: univariate polynomial commitments refuse
 polynomials above their capacity

bivariate_form dropped the coefficients that did not fit, so commit and open
silently worked on a different polynomial; assert like KZG::commit does.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 64b0da5..7b8b0f3 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -312,6 +312,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 5a4ab93..ec59a13 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -241,6 +241,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From fddae444c018b4fc0b383c070313662ad8ebb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 07/11] sim hook: guarded serialization of the values that have
 no wire encoding

With --cfg ripp_sim (never set by cargo, off by default) the aggregate proof, the
polynomial opening proofs, the bivariate polynomials and the SIPP proof derive
CanonicalSerialize/Deserialize, so that the simulation can send them over its
network, damage them and store them. Nothing changes without the cfg.
---
 ip_proofs/src/applications/groth16_aggregation.rs     | 4 ++++
 ip_proofs/src/applications/poly_commit/mod.rs         | 5 +++++
 ip_proofs/src/applications/poly_commit/transparent.rs | 5 +++++
 ip_proofs/src/lib.rs                                  | 2 ++
 sipp/src/lib.rs                                       | 6 ++++++
 5 files changed, 22 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index a6e63d9..eb92fea 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -2,6 +2,9 @@ use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_ff::{Field, One};
 use ark_groth16::{Proof, VerifyingKey};
 use ark_serialize::CanonicalSerialize;
+#[cfg(ripp_sim)]
+#[allow(unused_imports)]
+use ark_serialize::*;
 
 use ark_std::rand::Rng;
 use digest::Digest;
@@ -55,6 +58,7 @@ type MultiExpInnerProductCProof<P, D> = TIPAWithSSMProof<
     D,
 >;
 
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct AggregateProof<P: Pairing, D: Digest> {
     com_a: PairingOutput<P>,
     com_b: PairingOutput<P>,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 7b8b0f3..c5a87b2 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -8,6 +8,9 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_sim)]
+#[allow(unused_imports)]
+use ark_serialize::*;
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -117,6 +120,7 @@ impl<P: Pairing> KZG<P> {
     }
 }
 
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -138,6 +142,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index ec59a13..afe8cc0 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -4,6 +4,9 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_sim)]
+#[allow(unused_imports)]
+use ark_serialize::*;
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -55,6 +58,7 @@ type PolynomialEvaluationFirstTierIPAProof<P, D> = GIPAProof<
     D,
 >;
 
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -76,6 +80,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..296765b 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,6 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+// `ripp_sim` is a custom cfg set by the deterministic simulation harness; see the attributes using it
+#![allow(unexpected_cfgs)]
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index f67c489..4b0f171 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,8 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+// `ripp_sim` is a custom cfg set by the deterministic simulation harness; see the attributes using it
+#![allow(unexpected_cfgs)]
 
 use std::marker::PhantomData;
 
@@ -11,6 +13,9 @@ use ark_ec::{
 };
 use ark_ff::{Field, One, UniformRand};
 use ark_serialize::CanonicalSerialize;
+#[cfg(ripp_sim)]
+#[allow(unused_imports)]
+use ark_serialize::*;
 use ark_std::Zero;
 use digest::{generic_array::typenum::U32, Digest};
 use rayon::prelude::*;
@@ -29,6 +34,7 @@ pub struct SIPP<E: Pairing, D: Digest> {
 
 /// `Proof` contains the GT elements produced by the prover.
 // TODO(psi): why not just make Proof an alias since there's only one field?
+#[cfg_attr(ripp_sim, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
-- 
2.43.0


From bd61ecb2f2c922de7680f4beab791006db282178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 08/11] fix: adding identity commitments keeps the elements of
 the longer operand

---
 dh_commitments/src/identity/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dh_commitments/src/identity/mod.rs b/dh_commitments/src/identity/mod.rs
index 0ec793e..552bbc3 100644
--- a/dh_commitments/src/identity/mod.rs
+++ b/dh_commitments/src/identity/mod.rs
@@ -40,14 +40,17 @@ where
 {
     type Output = Self;
 
+    /// Adds element by element; where one operand is shorter, its missing elements count as zero.
     fn add(self, rhs: Self) -> Self::Output {
-        IdentityOutput(
-            self.0
-                .iter()
-                .zip(&rhs.0)
-                .map(|(a, b)| a.clone() + b.clone())
-                .collect::<Vec<T>>(),
-        )
+        let (mut sum, other) = if self.0.len() >= rhs.0.len() {
+            (self.0, rhs.0)
+        } else {
+            (rhs.0, self.0)
+        };
+        sum.iter_mut()
+            .zip(other)
+            .for_each(|(a, b)| *a = a.clone() + b);
+        IdentityOutput(sum)
     }
 }
 
-- 
2.43.0


From 8fd0bb34d6e7577dc6bc33cfbc04e265701cdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 09/11] fix: TIPA::verify_with_srs_shift panicked for a shift
 of zero

---
 ip_proofs/src/tipa/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index 0fd8418..681b96a 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -247,6 +247,11 @@ where
         proof: &TIPAProof<IP, LMC, RMC, IPC, P, D>,
         r_shift: &P::ScalarField,
     ) -> Result<bool, Error> {
+        // No commitment key is shifted by zero
+        let r_inverse = match r_shift.inverse() {
+            Some(r_inverse) => r_inverse,
+            None => return Ok(false),
+        };
         let (base_com, transcript) =
             GIPA::verify_recursive_challenge_transcript(com, &proof.gipa_proof)?;
         let transcript_inverse = transcript.iter().map(|x| x.inverse().unwrap()).collect();
@@ -278,7 +283,7 @@ where
             &ck_a_final,
             &ck_a_proof,
             &transcript_inverse,
-            &r_shift.inverse().unwrap(),
+            &r_inverse,
             &c,
         )?;
         let ck_b_valid = verify_commitment_key_g1_kzg_opening(
-- 
2.43.0


From d04117cc92ddd2c4355f5f979c9cb497d7ac7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:40 +0000
Subject: [PATCH 10/11] fix: bivariate commitments could not be opened unless
 the degrees were one below a power of two

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 2 ++
 ip_proofs/src/applications/poly_commit/transparent.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index c5a87b2..1a4f56a 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -160,6 +160,8 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
         x_degree: usize,
         y_degree: usize,
     ) -> Result<(SRS<P>, Vec<P::G1Affine>), Error> {
+        // The inner product argument needs a power of two of keys
+        let x_degree = (x_degree + 1).next_power_of_two() - 1;
         let alpha = <P::ScalarField>::rand(rng);
         let beta = <P::ScalarField>::rand(rng);
         let g = <P::G1>::generator();
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index afe8cc0..ee19941 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -98,8 +98,13 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
         x_degree: usize,
         y_degree: usize,
     ) -> Result<(Vec<P::G1>, Vec<P::G2>), Error> {
-        let first_tier_ck = PolynomialEvaluationFirstTierIPA::<P, D>::setup(rng, y_degree + 1)?.0;
-        let second_tier_ck = PolynomialEvaluationSecondTierIPA::<P, D>::setup(rng, x_degree + 1)?.0;
+        // The inner product arguments need a power of two of keys
+        let (x_size, y_size) = (
+            (x_degree + 1).next_power_of_two(),
+            (y_degree + 1).next_power_of_two(),
+        );
+        let first_tier_ck = PolynomialEvaluationFirstTierIPA::<P, D>::setup(rng, y_size)?.0;
+        let second_tier_ck = PolynomialEvaluationSecondTierIPA::<P, D>::setup(rng, x_size)?.0;
         Ok((first_tier_ck, second_tier_ck))
     }
 
-- 
2.43.0


From d731a523c33a50c2e69ff4c0041d34f29da7eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:40 +0000
Subject: [PATCH 11/11] fix: inner-product provers panicked on unusable lengths
 instead of answering with an error

---
 ip_proofs/src/gipa.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index 1f60bd9..ab795c4 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -192,7 +192,19 @@ where
         let (mut ck_a, mut ck_b, ck_t) = ck;
         let mut r_commitment_steps = Vec::new();
         let mut r_transcript: Vec<LMC::Scalar> = Vec::new();
-        assert!(m_a.len().is_power_of_two());
+        // Power of 2 length, the same for messages and keys
+        if !m_a.len().is_power_of_two() || m_a.len() != m_b.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                m_a.len(),
+                m_b.len(),
+            )));
+        }
+        if ck_a.len() != m_a.len() || ck_b.len() != m_b.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                ck_b.len(),
+            )));
+        }
         let (m_base, ck_base) = 'recurse: loop {
             let recurse = start_timer!(|| format!("Recurse round size {}", m_a.len()));
             if m_a.len() == 1 {
-- 
2.43.0

