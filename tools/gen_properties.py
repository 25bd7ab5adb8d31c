#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable in one place).
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

add("C01", "Parallel inner products equal the sequential sum of products",
 "For every thread-pool size and every way the pool's workers interleave and steal work, the pairing, multiexponentiation and scalar inner products of two equal-length vectors equal the term-by-term sum of products, for every length including zero and one and for vectors containing zeros, identities and repeated elements. Vectors of different lengths are answered with an error, never with a value or a panic. SIPP's pairing-product helpers (with and without coefficients) return the same sum.",
 ["schedules", "inputs", "configurations"],
 "all vector lengths, all thread-pool sizes (including more threads than elements and lengths not divisible by the thread count), all work-stealing schedules, all group/scalar inputs including degenerate ones",
 "The tests call each product on one power-of-two length with whatever number of threads the test machine has and the operating system's schedule; chunking depends on threads x length and is never compared with an independent sum.",
 ["inner_products/src/lib.rs", "sipp/src/lib.rs"],
 [("length check before every product", "inner_products/src/lib.rs: InnerProduct impls"), ("chunking by rayon::current_num_threads, one Miller loop per chunk, one final exponentiation", "inner_products/src/lib.rs: cfg_multi_pairing; sipp/src/lib.rs: product_of_pairings")],
 ["return value of InnerProduct::inner_product / cfg_multi_pairing / product_of_pairings(_with_coeffs)"])

add("C02", "Commitments open exactly and are doubly homomorphic across nodes",
 "A commitment to a message under a key verifies for exactly that message and that key: any other message, key or commitment is answered with false, and a message whose length differs from the key's with an error (the identity commitment, which has no key material, simply holds the message). Commitments are doubly homomorphic: sums and scalar multiples of commitments equal the commitment to the correspondingly combined messages (same key) or keys (same message), so commitments computed by independent workers on parts of the data and merged in any delivery order equal the commitment to the whole.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "AFGHO (both groups), Pedersen and identity commitments; all lengths and thread counts; every delivery order, duplication, loss, crash and restart of the workers' messages",
 "Each test commits once to 8 random elements, checks that one unrelated message does not open, and never uses either homomorphism, which everything built on top relies on.",
 ["dh_commitments/src/lib.rs", "dh_commitments/src/afgho16/mod.rs", "dh_commitments/src/pedersen/mod.rs", "dh_commitments/src/identity/mod.rs"],
 [("commit = inner product of key and message", "afgho16/mod.rs, pedersen/mod.rs"), ("Add/MulAssign of IdentityOutput and placeholder key", "identity/mod.rs"), ("verify recomputes the commitment", "dh_commitments/src/lib.rs")],
 ["return values of setup/commit/verify", "outputs combined with Add and MulAssign"])

add("C03", "Honest inner-product arguments are always accepted",
 "Whenever an honest prover with a true statement of power-of-two length (one included) runs any of the recursive inner-product arguments (GIPA and TIPA for pairing, multiexponentiation and scalar products, the shifted-SRS variant, and the structured-scalar variants), it produces a proof and every honest verifier that receives the proof intact, under any schedule and after any finite number of message losses, duplications, delays, crashes and restarts, accepts it. The argument's prover answers a false claim, a mismatched commitment, or a length that is not a power of two with an error and never with a proof.",
 ["schedules", "crash_points", "inputs", "fault_sequences"],
 "all protocol variants and commitment combinations, all power-of-two sizes, honest witnesses including degenerate ones (zeros, identities, repeated entries), thread counts, schedules, network fault sequences and crash points",
 "The tests prove and verify once per variant at size 8 with one fixed random witness and never run a size-1 statement, a degenerate witness, a refused claim, or a prover and verifier that run concurrently or restart.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs"],
 [("recursive folding with the same challenge on both sides", "gipa.rs: _prove, _compute_recursive_challenges, _compute_final_commitment_keys"), ("KZG opening of the folded commitment key", "tipa/mod.rs: prove_commitment_key_kzg_opening, verify_commitment_key_*_kzg_opening"), ("prover-side checks", "gipa.rs: prove")],
 ["Result of prove / verify", "history of verdicts at the verifier nodes"])

add("C04", "A GIPA verifier rejects every altered or forged proof or statement",
 "A verifier of the recursive inner-product argument (plain, or with a structured scalar message) accepts only if every part of what it received (each commitment in the statement, each round's left and right commitments, the final opened values, the number of rounds, the key it holds, the structured scalar) is what an honest run for that true statement produces; a message altered, spliced from another session, truncated, extended, replayed against another statement or key, or produced by a prover that deviates at any point of its computation is answered with false or an error.",
 ["fault_sequences", "inputs", "schedules"],
 "all element positions of statement and proof, alterations including ones computed from the public challenges so that they cancel in a folded check, all sizes, witnesses in general position, deliveries under corruption/duplication/replay across concurrent sessions",
 "No test gives a GIPA verifier a bad proof, a bad statement or a proof from another run: all of them only assert that the honest proof passes.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/structured_scalar_message.rs"],
 [("challenges recomputed from the proof's own messages", "gipa.rs: _compute_recursive_challenges"), ("base commitment check of all three commitments", "gipa.rs: _verify_base_commitment"), ("round-count check", "gipa.rs: _compute_final_commitment_keys"), ("structured scalar recomputed in product form", "structured_scalar_message.rs")],
 ["verdict (true / false / error) of verify"])

add("C05", "A TIPA verifier rejects every altered or forged proof or statement",
 "A verifier of the trusted-setup argument (pairing, multiexponentiation and scalar products, shifted SRS, and structured scalar message) accepts only if the statement's commitments, every round message, the final opened values, the final commitment keys with their opening proofs, the shift or structured scalar and the verification key all belong to one honest run for a true statement; anything altered, spliced, replayed, or produced by a deviating prover, including one that substitutes its own final commitment key, is answered with false or an error. The only value the verifier is allowed to ignore is the opened right-hand scalar in the structured-scalar variant, which it recomputes itself.",
 ["fault_sequences", "inputs", "schedules"],
 "all element positions of statement, proof and verification key, alterations computed from public challenges (cancelling pairs across rounds, key substitution with a matching statement), all sizes, cross-session and cross-setup splices",
 "No test gives a TIPA verifier anything but the honest proof, so neither of the two opening checks nor the base check is ever seen to reject.",
 ["ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "ip_proofs/src/gipa.rs"],
 [("final commitment keys bound by KZG openings at a hashed point", "tipa/mod.rs: verify_with_srs_shift, verify_commitment_key_*_kzg_opening"), ("base check under the opened keys", "tipa/mod.rs; structured_scalar_message.rs"), ("shift applied to the left key polynomial", "tipa/mod.rs")],
 ["verdict (true / false / error) of verify"])

add("C06", "Honest SIPP proofs are always accepted",
 "For every power-of-two length of at least two, every vector of coefficients and every pair of group-element vectors, the proof an honest SIPP prover produces for the true pairing product is accepted by every honest verifier that receives it intact, whatever the thread counts and schedules of prover and verifier and after any finite number of message faults, crashes and restarts.",
 ["schedules", "crash_points", "inputs", "fault_sequences"],
 "all power-of-two lengths, coefficient vectors and points including zeros, identities and repeated entries; thread counts, schedules, network faults and crash points",
 "The only SIPP test proves and verifies one statement of length 32 with random points and random coefficients.",
 ["sipp/src/lib.rs", "sipp/src/rng.rs"],
 [("prover and verifier derive the same challenges from the statement and the messages", "sipp/src/lib.rs, sipp/src/rng.rs"), ("verifier folds coefficients in bit order of the challenges", "sipp/src/lib.rs: verify")],
 ["Result of SIPP::prove / SIPP::verify"], hook="guarded serialization of the SIPP proof so that it can cross the simulated network")

add("C07", "A SIPP verifier rejects every altered or forged proof or statement",
 "A SIPP verifier returns true only when the claimed value is the pairing product of the given points and coefficients and the proof is the one for exactly that statement: changing any point, any coefficient, the claimed value or any of the prover's messages, reordering, adding or removing messages, taking messages from another session, or any deviation of the prover is answered with false or an error.",
 ["fault_sequences", "inputs", "schedules"],
 "all positions of statement and proof, alterations computed from the challenges so that they cancel, all power-of-two lengths, cross-session splices, provers that deviate at any step",
 "The only test asserts that one honest proof verifies; a verifier that always returns true passes it.",
 ["sipp/src/lib.rs", "sipp/src/rng.rs"],
 [("statement and messages hashed into the challenge stream", "sipp/src/lib.rs; sipp/src/rng.rs: absorb"), ("final pairing equation", "sipp/src/lib.rs: verify"), ("message-count check", "sipp/src/lib.rs: verify")],
 ["verdict of SIPP::verify"], hook="guarded serialization of the SIPP proof")

add("C08", "Aggregating valid Groth16 proofs always yields an accepted aggregate",
 "For every power-of-two number of valid Groth16 proofs (one included), every number of public inputs and every verification key, the aggregate an honest aggregator produces is accepted by every honest verifier holding the same public inputs in the same order, whatever the schedules and thread counts and after any finite number of message faults, crashes and restarts.",
 ["schedules", "crash_points", "inputs", "fault_sequences"],
 "numbers of proofs 1,2,4,8,..., numbers of public inputs 0..n, verification keys, repeated proofs, thread counts, schedules, network faults and crash points",
 "The aggregation code has no unit test at all (only a benchmark and an example run it), so nothing is asserted about it.",
 ["ip_proofs/src/applications/groth16_aggregation.rs"],
 [("random linear combination by hashed r", "groth16_aggregation.rs"), ("shifted TIPA for A,B and structured-scalar TIPA for C", "groth16_aggregation.rs"), ("aggregate pairing-product equation", "groth16_aggregation.rs: verify_aggregate_proof")],
 ["Result of aggregate_proofs / verify_aggregate_proof"], hook="guarded serialization of the aggregate proof")

add("C09", "An aggregate verifies only if every aggregated proof is valid",
 "An aggregate is accepted only for the verification key and the public inputs, in the same order and number, for which every one of the aggregated Groth16 proofs is valid: if any single aggregated proof is invalid, any public input, verification-key element or SRS element differs, proofs and inputs are permuted, an input vector has the wrong length, or any element of the aggregate is altered or taken from another aggregate, the verifier answers false or an error.",
 ["fault_sequences", "inputs", "schedules"],
 "which of the proofs is invalid and how, which public input or key element differs, every element of the aggregate, permutations, cross-session splices, deviating aggregators",
 "The aggregation code has no unit test; the benchmark only runs the honest path.",
 ["ip_proofs/src/applications/groth16_aggregation.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs"],
 [("both inner-product arguments verified under challenge r", "groth16_aggregation.rs: verify_aggregate_proof"), ("pairing-product equation over the public inputs", "groth16_aggregation.rs: verify_aggregate_proof")],
 ["verdict of verify_aggregate_proof"], hook="guarded serialization of the aggregate proof")

add("C10", "Honest polynomial commitment openings are always accepted",
 "For every polynomial within the degree the scheme was set up for (any degree including zero, the zero polynomial, sparse and full ones) and every point, the opening produced by an honest committer for the true evaluation is accepted by every honest verifier, for the univariate pairing-based scheme (KZG), the bivariate and univariate schemes with trusted setup, and their transparent counterparts, under any schedule and after any finite number of message faults, crashes and restarts. A polynomial that exceeds the capacity of the keys is refused, never committed to in part.",
 ["schedules", "crash_points", "inputs", "fault_sequences"],
 "all degrees and set-up sizes, polynomials in every sparsity pattern, points including zero and one, thread counts, schedules, network faults and crash points",
 "The tests open one random polynomial of one fixed shape per scheme; degree 0, polynomials shorter than the key, zero coefficients at the top and over-capacity polynomials are never tried, and KZG alone is not tested.",
 ["ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs"],
 [("padding of coefficients to the key length", "poly_commit/mod.rs, transparent.rs: commit, open"), ("bivariate form of a univariate polynomial", "bivariate_degrees, bivariate_form"), ("evaluation through powers of x then y", "open, verify")],
 ["Result of setup/commit/open/verify"], hook="guarded serialization of opening proofs and bivariate polynomials")

add("C11", "Polynomial commitment openings bind commitment, point and value",
 "A verifier of any of the polynomial commitment schemes accepts only the value the committed polynomial takes at the given point: a wrong value, a different point, commitment or verification key, an opening of another polynomial or session, an opening with any element altered, or an opening produced by a committer that deviates at any step is answered with false or an error.",
 ["fault_sequences", "inputs", "schedules"],
 "all schemes, all positions of statement and opening, alterations computed from the challenges, cross-session splices, deviating committers",
 "The tests only assert that the honest opening of the true value verifies; no test ever offers a wrong value.",
 ["ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs", "ip_proofs/src/tipa/structured_scalar_message.rs"],
 [("KZG pairing check", "poly_commit/mod.rs: KZG::verify"), ("first-tier and second-tier checks both required", "poly_commit/mod.rs, transparent.rs: verify")],
 ["verdict of verify"], hook="guarded serialization of opening proofs")

add("C12", "Challenges depend on every preceding message and both sides agree",
 "Prover and verifier of one session derive the same sequence of challenges, including when a digest leads to an unusable challenge and the derivation is retried, and each challenge changes whenever any message sent before it in the protocol (each round's left and right commitments, the final commitment keys, the aggregated commitments, SIPP's statement and round messages) changes. The challenge generator used by SIPP is a deterministic function of its seed and of everything absorbed since, in order, and independent of how many bytes were drawn in between.",
 ["inputs", "fault_sequences", "histories", "schedules"],
 "all message positions and alterations, all digest behaviours including unusable challenges at any attempt, all sequences of seed / draw / absorb operations",
 "The tests use one real hash whose output is never unusable, never compare the two sides' challenges and never check that a message influences one.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "ip_proofs/src/applications/groth16_aggregation.rs", "sipp/src/rng.rs", "sipp/src/lib.rs"],
 [("hash of nonce, previous challenge and round messages", "gipa.rs"), ("retry with a counter when the digest maps to no usable scalar", "gipa.rs, tipa/mod.rs, structured_scalar_message.rs, groth16_aggregation.rs"), ("absorb re-hashes the running seed", "sipp/src/rng.rs")],
 ["digest queries and answers recorded at the hash-function seam", "verdicts", "bytes drawn from the generator"])

add("C13", "Proofs and commitments survive faulty storage and transport unchanged",
 "Writing any proof or commitment value to a stream and reading it back, compressed or not and whatever the stream does within its contract (short reads and writes, interruptions, arbitrary chunking), gives an equal value that verifies the same and re-encodes to the same bytes, and the announced size equals the bytes written. When the stream fails, ends early or delivers damaged bytes, the result is an error or a value that honest verification does not accept in place of the original, never a panic and never a partially read value passed off as complete.",
 ["fault_sequences", "crash_points", "inputs"],
 "every byte position for truncation, write failure, interruption and damage; all proof types with an encoding; compressed and uncompressed forms; torn writes followed by restart",
 "No test serializes anything.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "dh_commitments/src/identity/mod.rs"],
 [("derived encodings of the proof types", "gipa.rs, tipa/mod.rs, structured_scalar_message.rs"), ("derived encodings of identity commitment values", "identity/mod.rs")],
 ["serialize/deserialize results", "bytes on the simulated disk and network"])

add("C14", "No received message can crash or exhaust a verifier",
 "Whatever decodable proof or opening arrives over the network for a well-formed statement and key (wrong number of rounds in either direction, missing or surplus values, identities and zeros in any position, elements of another session, public-input vectors of the wrong length), every verifier answers with true, false or an error value: it does not panic, does not run out of its time or memory budget, and keeps serving later sessions correctly.",
 ["fault_sequences", "inputs", "histories"],
 "all verifiers, all structural and value faults of a decodable proof, sequences of hostile messages interleaved with honest sessions",
 "No test gives a verifier a malformed proof.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "ip_proofs/src/applications/groth16_aggregation.rs", "sipp/src/lib.rs", "ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs"],
 [("length checks that return errors", "gipa.rs: verify; sipp/src/lib.rs: verify; groth16_aggregation.rs: verify_aggregate_proof")],
 ["absence of panics, bounded steps and memory in verify", "verdicts of later honest sessions"], hook="guarded serialization of proofs without an encoding")

add("C15", "Results do not depend on schedule, threads, neighbours or history",
 "Everything the library computes (keys from a given random stream, proofs, commitments, verdicts) is a function of its explicit inputs alone: proof bytes and verdicts are identical for every thread count and schedule, in the parallel and the sequential build, when other sessions run concurrently in the same process, after other sessions have failed, been aborted midway or been restarted, and however often they are recomputed. Every operation finishes within a bounded number of scheduler steps, also when called from inside a worker of the same thread pool.",
 ["schedules", "crash_points", "configurations", "histories"],
 "all thread counts, schedules, mixes of concurrent sessions, abort points and preceding histories",
 "Tests run each protocol once per process and never compare two executions of the same input.",
 ["inner_products/src/lib.rs", "ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "ip_proofs/src/applications/groth16_aggregation.rs", "ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs", "sipp/src/lib.rs"],
 [("order-preserving parallel iterators without shared state", "all cfg_iter!/par_iter uses"), ("exact (associative, commutative) reductions", "inner_products/src/lib.rs; sipp/src/lib.rs: verify")],
 ["proof bytes, verdicts, step counts"], hook="guarded serialization of proofs without an encoding")

add("C16", "Setup yields well-formed keys of the requested size from any stream",
 "Every setup returns keys of exactly the requested size (those of bivariate commitments rounded up to the power of two their inner-product arguments need) with the structure its protocols rely on: structured reference strings are consecutive powers of one hidden exponent per group, starting at the group generator, with the verification elements taken from the same exponents (crossed between the groups as the verifier expects) and commitment keys the even powers; transparent keys and commitment keys are independent elements; the verification key derived from a reference string is consistent with it. Keys made from different randomness differ, keys made from the same randomness are equal, and whatever chunk sizes the random source delivers does not matter.",
 ["inputs", "configurations", "schedules"],
 "all sizes including one, all random streams (good ones, and ones repeating across restarts), thread counts",
 "The tests only use a setup's output as input to an honest run at one size.",
 ["ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs", "ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs", "ip_proofs/src/applications/groth16_aggregation.rs", "dh_commitments/src/lib.rs"],
 [("structured_generators_scalar_power", "tipa/mod.rs"), ("SRS::get_commitment_keys, get_verifier_key", "tipa/mod.rs"), ("random_generators", "dh_commitments/src/lib.rs")],
 ["fields of the SRS, verification key and commitment keys"])

add("C20", "Succinctness and concrete running time",
 "Proof size and verification work grow logarithmically with the statement (or as the documented square root for the transparent schemes), and parallel provers speed up with the number of threads.",
 ["inputs", "configurations"], "all sizes and thread counts",
 "Tests do not measure sizes or time.",
 ["ip_proofs/src/tipa/mod.rs", "sipp/src/lib.rs", "benches/benches/tipa.rs"],
 [("halving recursion", "gipa.rs: _prove")], ["proof length, running time"])
add("C21", "Knowledge soundness against every computationally bounded adversary",
 "No efficient adversary can make a verifier accept a statement without knowing a witness, except with negligible probability.",
 ["programs", "inputs"], "all polynomial-time adversaries",
 "A statement about all adversaries and a hardness assumption; tests run one honest prover.",
 ["ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "sipp/src/lib.rs"],
 [("Fiat-Shamir, binding commitments, KZG", "gipa.rs, tipa/mod.rs")], ["verdict of verify"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
