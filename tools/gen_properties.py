#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

KS="kzg/src/scheme.rs"; KO="kzg/src/opening.rs"; KR="kzg/src/srs.rs"
FT="fri/src/fiat_shamir/transcript.rs"; FH="fri/src/hasher.rs"; FM="fri/src/merkle_tree.rs"; FL="fri/src/fri_layer.rs"; FP="fri/src/prover.rs"; FV="fri/src/verifier.rs"
PC="plonk/src/challenge.rs"; PG="plonk/src/gate.rs"; PK="plonk/src/constraint.rs"; PI="plonk/src/circuit.rs"; PP="plonk/src/prover.rs"; PV="plonk/src/verifier.rs"; PS="plonk/src/slice_polynomial.rs"; PR="plonk/src/parser.rs"; CC="plonk/src/common_preprocessed_input/cpi_circuit.rs"; CP="plonk/src/common_preprocessed_input/cpi_parser.rs"
NT="nova/src/transcript.rs"; NU="nova/src/utils.rs"; NC="nova/src/circuit.rs"; NR="nova/src/r1cs/mod.rs"; NM="nova/src/nifs/mod.rs"; NP="nova/src/nifs/nifs_prover.rs"; NV="nova/src/nifs/nifs_verifier.rs"; IP="nova/src/ivc/ivc_prover.rs"; IV="nova/src/ivc/ivc_verifier.rs"; IM="nova/src/ivc/mod.rs"

# ------------------------------------------------------------------ KZG
prop("K01","KZG verification accepts exactly the openings that satisfy the pairing check",
 "KZG verification of a claim (commitment, point, claimed value, witness) answers true if and only if e(witness, [s]G2 - point*G2) equals e(commitment - value*G1, G2). No claim, including identity points, zero values or repeated points, is accepted or rejected on any other ground.",
 ["inputs"],"every commitment, opening, evaluation point and SRS",
 "The tests open a handful of random polynomials and a single wrong value; the equation must hold for every group element an adversary may send.",
 [KS],[("single-opening pairing equation","kzg/src/scheme.rs KzgScheme::verify")])
prop("K02","KZG batch verification checks every claim under its own fresh random weight",
 "Batch verification accepts exactly when the randomly weighted sum of all individual pairing equations holds: every (commitment, point, opening) triple takes part, each weighted by its own value freshly drawn from the caller's random generator and used identically on both sides. Lists of different length are refused rather than truncated.",
 ["inputs"],"every list of claims of every length, every position of a bad claim, every generator",
 "Tests use two or three claims; dropping, mispairing or cancelling one claim only shows for particular positions, lengths or crafted openings.",
 [KS],[("random linear combination of claims","kzg/src/scheme.rs KzgScheme::batch_verify")])
prop("K03","KZG commitments bind every coefficient and refuse polynomials beyond the SRS",
 "The commitment to a polynomial (given as polynomial or as coefficient vector) is the sum over all its coefficients of coefficient i times the i-th SRS power, and zero for the zero polynomial; a constant commits to constant*G1. A polynomial with more coefficients than the SRS has powers is refused, never silently truncated.",
 ["inputs"],"every polynomial of every degree and every SRS size",
 "Tests commit to a few short polynomials; truncation or a skipped coefficient appears only at particular degrees, sizes or coefficient patterns.",
 [KS],[("multi-scalar sum over the SRS","kzg/src/scheme.rs KzgScheme::evaluate_in_s"),("entry points","kzg/src/scheme.rs KzgScheme::{commit,commit_vector,commit_para}")])
prop("K04","KZG openings carry the true evaluation and the matching quotient witness",
 "Opening a polynomial p at z yields p(z) together with the commitment to (p - p(z))/(x - z), for every polynomial including constants and zero, so that it always verifies against the commitment to p. Opening a coefficient vector gives the same result as opening the polynomial with those coefficients.",
 ["inputs"],"every polynomial (zero, constant, any degree) and every point",
 "Tests open a few fixed polynomials; degenerate polynomials and the agreement of the two entry points are not covered.",
 [KS],[("quotient witness","kzg/src/scheme.rs KzgScheme::open"),("vector form","kzg/src/scheme.rs KzgScheme::open_vector")])
prop("K05","Arithmetic on KZG commitments and openings is the group arithmetic it denotes",
 "Adding, subtracting, negating and scaling commitments gives the commitment to the correspondingly combined polynomials; adding two openings at one point gives the opening of the sum; aggregating commitments under a challenge weights the i-th commitment by the i-th power of the challenge, starting from one, and uses all of them.",
 ["inputs"],"every pair or list of commitments and openings, every scalar and challenge",
 "The tests add an opening to itself or combine specific commitments, which cannot tell left from right operands nor reveal a dropped term.",
 [KS,KO],[("operator implementations","kzg/src/scheme.rs impl Add/Sub/Mul/Neg for KzgCommitment"),("opening addition","kzg/src/opening.rs impl Add for KzgOpening"),("aggregation","kzg/src/scheme.rs KzgScheme::aggregate_commitments")])
prop("K06","The SRS is the consecutive powers of one secret, drawn fresh and not retained",
 "A reference string for circuit size n holds the n+3 points s^0*G1, s^1*G1, ..., s^(n+2)*G1 together with G2 and s*G2 for one and the same s. When no secret is supplied, s is drawn from system randomness on each call, and the secret never remains reachable from the reference string.",
 ["inputs","configurations"],"every circuit size and every secret",
 "Tests fix one small size and cannot observe whether the secret is fresh or recoverable.",
 [KR],[("power sequence and G2 element","kzg/src/srs.rs Srs::new_from_secret"),("secret sampling","kzg/src/srs.rs Srs::new")])

# ------------------------------------------------------------------ FRI
prop("F01","FRI verification accepts only fully authenticated, fold-consistent queries",
 "A FRI proof is accepted only if, for every query index derived from the transcript and for every committed layer, the evaluation and its symmetric partner are authenticated against that layer's committed root at exactly the positions the index dictates, their fold under that layer's challenge equals the next layer's opened value, and the last fold equals the claimed constant. Every other proof, whatever its list lengths, indices or parameters, is rejected with an error.",
 ["inputs"],"every proof object an adversary can construct, every query and every layer",
 "The tests tamper with one or two fields of an honest proof; skipped layers, truncated lists, swapped roots or off-by-one positions need crafted proofs.",
 [FV,FM],[("per-query checks","fri/src/verifier.rs verify_query"),("query loop and transcript replay","fri/src/verifier.rs verify"),("path check","fri/src/merkle_tree.rs verify_merkle_proof")])
prop("F02","Merkle proofs verify exactly against the tree's root, and hashing is unambiguous",
 "For every tree and every leaf index, the proof generated for that index recomputes the tree's root from the leaf by hashing left/right according to the index bits, and verification accepts only a path whose recomputed root matches. The hash of a list of field elements determines the list: two different lists are never fed to the hash as the same byte string.",
 ["inputs"],"every leaf vector, index and path",
 "Tests build a few small trees; ambiguous encodings and wrong siblings at other depths or indices are not sampled.",
 [FM,FH],[("tree construction and proofs","fri/src/merkle_tree.rs MerkleTree::{new,root,generate_proof}"),("path verification","fri/src/merkle_tree.rs verify_merkle_proof"),("element and list hashing","fri/src/hasher.rs hash, hash_slice")])
prop("F03","FRI prover and verifier derive the same challenges, each after its commitment",
 "For every proof, the verifier recomputes the folding challenges and query indices from exactly the sequence of values the prover absorbed: each layer root is absorbed before that layer's folding challenge is drawn, and all roots and the final constant are absorbed before the query indices are drawn. Every query index is reduced to the evaluation domain.",
 ["inputs"],"every polynomial, blow-up factor, number of queries and hash",
 "An honest round trip at a few sizes does not show that a challenge depends on what it must bind.",
 [FP,FV,FT],[("prover order","fri/src/prover.rs folding_phase, query_phase"),("verifier order","fri/src/verifier.rs verify")])
prop("F04","FRI layers evaluate the folded polynomial on successive squared, halved cosets",
 "Layer 0 is the input polynomial evaluated on the coset g*<w> of the full domain; each next layer is the previous polynomial folded as even(x) + r*odd(x) with that layer's challenge, evaluated on the squared coset of half the size, and the final constant is the fully folded polynomial. Folding keeps every coefficient, for even and odd lengths.",
 ["inputs"],"every polynomial, field, domain size and challenge",
 "Tests fold a couple of fixed polynomials of even length.",
 [FL,FP],[("layer evaluation","fri/src/fri_layer.rs FriLayer::from_poly"),("folding","fri/src/prover.rs fold_polynomial, folding_phase")])
prop("F05","FRI query answers are the committed values at the positions the verifier derives",
 "For every query index and layer, the prover's decommitment contains that layer's evaluation and authentication path at index mod layer size and at the symmetric position half a layer away, in layer order, and the proof lists every layer's root and one decommitment per query. Hence every honestly generated proof is accepted.",
 ["inputs"],"every polynomial, query count and transcript outcome",
 "Round-trip tests exercise only the indices their fixed inputs happen to produce.",
 [FP],[("query answers","fri/src/prover.rs query_phase"),("proof assembly","fri/src/prover.rs generate_proof")])
prop("F06","FRI acceptance bounds the degree of the committed function",
 "A FRI proof is accepted only when the committed function is close to a polynomial whose degree is below a bound that is strictly smaller than the domain, as given by the blow-up factor, and only with at least the number of queries the verifier requires.",
 ["inputs"],"every committed function and proof",
 "Honest round trips never present a function that is not of low degree.",
 [FV,FP],[("number of folds and accepted parameters","fri/src/verifier.rs verify; fri/src/prover.rs generate_proof")])

# ------------------------------------------------------------------ transcripts
prop("T01","Every challenge depends on everything absorbed before it, in order",
 "In all three transcripts (FRI, PLONK, Nova) absorbing a value replaces the state by a hash of the previous state and that whole value, and challenges are drawn from a generator seeded by the current state. Hence changing, dropping or reordering any earlier absorbed value changes every later challenge.",
 ["histories"],"every sequence of absorb and challenge operations",
 "Tests compare two or three short sequences; a forgotten chaining step shows only for particular histories.",
 [FT,PC,NT],[("FRI absorb/challenge","fri/src/fiat_shamir/transcript.rs Transcript"),("PLONK absorb/challenge","plonk/src/challenge.rs ChallengeGenerator"),("Nova absorb/challenge","nova/src/transcript.rs Transcript")])
prop("T02","No challenge is ever drawn twice without absorbing something new in between",
 "Asking any of the transcripts for a challenge immediately after another challenge request, or before anything was absorbed where the transcript starts empty, is refused; after absorbing a value it is allowed again exactly once. Values of one multi-challenge request are drawn successively from one generator and so are independent.",
 ["histories"],"every sequence of absorb and challenge operations, every request size",
 "Tests try one illegal sequence per transcript at most.",
 [FT,PC,NT],[("generated flag","generate_rng_with_seed and digest/feed in the three transcripts")])
prop("T03","Challenges, verification and committing are deterministic",
 "Challenge derivation, proof verification, committing, circuit compilation and common preprocessed input generation depend only on their arguments: none of them reads system randomness, time, environment or iteration order of unordered containers. Only secret sampling, prover blinding and the caller-supplied batch-verification generator introduce randomness.",
 ["inputs","configurations"],"every call of every verifier and challenge derivation",
 "Non-determinism that changes results rarely or only across processes is invisible to single runs.",
 [FT,PC,NT,FV,PV,NV,IV,KS,PI,CC],[("entry points","verify functions, transcripts, commit, compile")])
prop("T04","Secrets are never written to output or stored in public objects",
 "In production builds, neither the trusted-setup secret, nor the prover's witness values and polynomials, nor its blinding values are printed, logged or copied into a proof other than through commitments and the protocol's evaluation openings.",
 ["inputs"],"every execution of the provers and the setup",
 "Tests do not look at output or at what data a proof object contains beyond acceptance.",
 [KR,PP,FP,NP,IP,PR],[("print sites and proof fields","non-test code of all crates")])

# ------------------------------------------------------------------ PLONK
prop("P01","PLONK prover and verifier run the same transcript, for every hash",
 "For every circuit and every choice of hash function the verifier's replay derives the same beta, gamma, alpha, evaluation point, v and u as the prover did: both absorb the same values in the same order, under the hash the caller selected, and use the derived challenges for the same roles.",
 ["inputs","configurations"],"every circuit, every hash type parameter",
 "Tests use one hash on both sides and only small circuits; a mismatch on one branch or hash is not exercised.",
 [PP,PV,PC],[("prover absorption","plonk/src/prover.rs generate_proof"),("verifier replay","plonk/src/verifier.rs verify_challenges")])
prop("P02","PLONK proof elements and statement are bound before the challenges over them",
 "Each commitment and each claimed evaluation in a PLONK proof is absorbed, as sent, before the first challenge that is meant to be independent of it (a,b,c before beta/gamma, z before alpha, the quotient parts before the evaluation point, all six evaluations before v, both opening witnesses before u), and the circuit being proved is absorbed before the first challenge.",
 ["inputs"],"every proof element and every statement",
 "Completeness tests never notice an unbound element; exploiting one needs an adaptively chosen proof.",
 [PV,PP,PC],[("verifier replay","plonk/src/verifier.rs verify_challenges"),("prover rounds","plonk/src/prover.rs generate_proof")])
prop("P03","PLONK verification accepts exactly when the PLONK equations hold",
 "The verifier accepts a proof if and only if the recomputed u matches and the batched pairing equation of the PLONK protocol holds for the circuit's selector, permutation and public-input polynomials, every proof element and every derived challenge; a quotient split degree larger than the circuit allows is rejected. All other proofs yield an error.",
 ["inputs"],"every circuit, SRS and proof object",
 "Tests check a few honest proofs and circuits that fail in the prover; each term of the equation must be right for all values.",
 [PV],[("verification equation","plonk/src/verifier.rs verify"),("circuit commitments","plonk/src/verifier.rs get_circuit_commitment")])
prop("P04","PLONK proofs are blinded with independent fresh randomness",
 "Every proof blinds a, b and c each with two and z with three independent scalars drawn afresh from system entropy for that proof, multiplied by the vanishing polynomial, so that no scalar is reused, fixed, zero or predictable and the blinded polynomials agree with the originals on the circuit domain.",
 ["inputs","histories"],"every proof, every circuit and every repeated proof of one statement",
 "Acceptance is unaffected by bad blinding, so no functional test can observe it.",
 [PP],[("blinding","plonk/src/prover.rs generate_proof rounds 1 and 2")])
prop("P05","PLONK prover builds the polynomials the protocol prescribes",
 "For every satisfied circuit the permutation accumulator, the quotient, the linearisation polynomial and the two opening quotients are the ones the PLONK protocol defines for the derived challenges, with shifted polynomials consistent with unshifted ones, and the proof's fields hold the corresponding commitments and evaluations. Hence every honest proof of a satisfied circuit is accepted.",
 ["inputs"],"every satisfied circuit of every size and all challenge values",
 "Tests prove a few small circuits without public inputs; terms multiplied by values that are zero there are not exercised.",
 [PP,PS],[("rounds 1-5","plonk/src/prover.rs generate_proof"),("accumulator","plonk/src/prover.rs compute_acc"),("quotient","plonk/src/prover.rs compute_quotient_polynomial"),("linearisation","plonk/src/prover.rs compute_linearisation_polynomial")])
prop("P06","The PLONK prover refuses witnesses that do not satisfy the circuit",
 "No proof is produced when any gate equation, the copy constraints or the accumulator's start condition fails: each of the three parts of the quotient is divided by the vanishing polynomial and a non-zero remainder, like a non-zero remainder in either opening quotient, stops the prover.",
 ["inputs"],"every circuit and witness, whichever constraint is violated",
 "Tests violate a constraint or two; each divisibility condition must be enforced separately.",
 [PP],[("remainder checks","plonk/src/prover.rs compute_quotient_polynomial, divide_by_vanishing_poly, generate_proof")])
prop("P07","Compiling a circuit preserves every gate and wires polynomials to their roles",
 "Compilation turns gate i into row i of the selector, wire-value and public-input polynomials, with addition, multiplication and constant gates encoded by their PLONK selectors and the public input negated, pads the circuit to a power of two with all-zero rows, and every accessor returns the polynomial it names. Compilation succeeds for every non-empty circuit.",
 ["inputs","programs"],"every sequence of gates, including a single gate, and all values",
 "Tests compile a few circuits with zero public inputs; swapped roles or padding faults at other sizes stay hidden.",
 [PI,PG,PK,"plonk/src/compiled_circuit.rs"],[("gate constructors","plonk/src/gate.rs"),("assignment and padding","plonk/src/circuit.rs get_assignment, pad_circuit, compile"),("accessors","plonk/src/constraint.rs")])
prop("P08","The preprocessed-input circuit agrees with the proving circuit",
 "The same gates added to the proving circuit and to the common-preprocessed-input circuit compile to identical selector, public-input and permutation polynomials and size, and the common preprocessed input holds the commitment of each of them under its own name. Both string front ends normalise a formula identically and emit the same gates and wirings for it.",
 ["inputs","programs"],"every gate sequence and every formula both front ends accept",
 "Only one or two formulas are compared by tests.",
 [PI,CC,PR,CP],[("sibling circuits","plonk/src/circuit.rs Circuit and plonk/src/common_preprocessed_input/cpi_circuit.rs CPICircuit"),("sibling parsers","plonk/src/parser.rs Parser and plonk/src/common_preprocessed_input/cpi_parser.rs CPIGenerator")])
prop("P09","Permutation polynomials map every wire to the position the circuit names",
 "For every gate row, the three permutation polynomials evaluate to the coset representative (1, k1 or k2 times the row's root of unity) of the position that gate's a, b and c wires name, and to themselves on padding rows; the three cosets H, k1*H, k2*H are built from distinct fixed multipliers on both prover and verifier sides.",
 ["inputs","programs"],"every circuit, wire and position",
 "Tests check one small permutation.",
 [PI,CC],[("permutation","cal_permutation and find_cosets in plonk/src/circuit.rs and cpi_circuit.rs")])
prop("P10","PLONK verification never reads the witness",
 "Verification of a proof depends only on the circuit's selector, permutation and public-input polynomials, its size and coset multipliers, the reference string and the proof: the a, b and c witness polynomials carried in the compiled circuit never influence acceptance.",
 ["inputs"],"every compiled circuit and proof",
 "Tests always verify with the compiled circuit that still contains the witness, so a verifier peeking at it passes.",
 [PV],[("verifier data flow","plonk/src/verifier.rs verify")])
prop("P11","Formula parsing emits every gate and wire once with matching values",
 "Parsing a formula emits one multiplication, addition or constant gate per operation; each gate's three wires are registered under the names of its own left, right and output values at columns 0, 1 and 2 of that gate's row, every occurrence of a name is linked into one cycle, and wire values are the product, sum or constant the gate type denotes. Powers are expanded to exactly that many factors.",
 ["inputs","programs"],"every well-formed formula and witness assignment",
 "Tests parse two or three formulas.",
 [PR,CP],[("gate emission","prepare_gen_circuit, generate_additional_gate, generate_constant_gate"),("position cycles","gen_circuit"),("normalisation","parse_string, normalize")])
prop("P12","Quotient slices keep every coefficient and recombine at the same exponents",
 "The quotient polynomial is split into at most three consecutive slices of equal length, each committed separately in order; recombining them at a point weights slice i by point^(i*(degree+1)) with the same degree the proof reports and the verifier uses.",
 ["inputs"],"every quotient length, including lengths not divisible by three and below three",
 "Tests use one or two lengths.",
 [PS,PV],[("split, commit, recombine","plonk/src/slice_polynomial.rs SlicePoly"),("verifier exponents","plonk/src/verifier.rs verify")])

# ------------------------------------------------------------------ Nova
prop("N01","Nova folding follows the relaxed-R1CS folding equations",
 "Folding two instance-witness pairs under r with cross term T yields E = E1 + r*T + r^2*E2, W = W1 + r*W2, u = u1 + r*u2, x = x1 + r*x2 and the same combinations of the commitments, where T = Az1*Bz2 + Az2*Bz1 - u1*Cz2 - u2*Cz1. Prover, verifier and the recursive circuit all obtain the folded instance from this one rule with the same argument roles.",
 ["inputs"],"every pair of instances and witnesses, every r and every R1CS",
 "Tests fold a fixed R1CS with trivial or equal u and E, where swapped operands or powers of r are indistinguishable.",
 [NM,NP,NV,NC],[("cross term","nova/src/nifs/mod.rs NIFS::compute_t"),("folding","nova/src/nifs/mod.rs NIFS::{fold_witness,fold_instance}"),("callers","NIFS::prover, NIFS::verifier, AugmentedCircuit::run, IVC::verify")])
prop("N02","Nova prover, verifier and circuit derive the same folding challenge",
 "The folding prover, the folding verifier and the recursive circuit absorb the same values in the same order before deriving the folding challenge, and the opening challenge is derived by prover and verifier from the same folded commitments; the verifier rejects a proof whose stated challenges differ from the derived ones.",
 ["inputs"],"every pair of instances, cross-term commitment and hash",
 "Tests run honest provers only on symmetric inputs.",
 [NP,NV,NC,NT],[("prover","nova/src/nifs/nifs_prover.rs NIFS::{prover,prove}"),("verifier","nova/src/nifs/nifs_verifier.rs NIFS::{verify,verify_challenge,verify_opening}"),("circuit","nova/src/circuit.rs AugmentedCircuit::run")])
prop("N03","A recursive step is accepted only with consistent inputs, else changes nothing",
 "At step i > 0 the augmented circuit succeeds only if the running instance, cross-term commitment and stored hash are present, the fresh instance's public input is exactly the stored hash, its error commitment is the trivial one and its scalar is one; a rejected step leaves the circuit's state untouched. The output is the hash of i+1, z0, F(z_i, w_i) and the correctly folded running instance (the trivial one at step 0).",
 ["inputs","histories"],"every step number, instance and witness",
 "Tests drive a few honest steps and one tampered one.",
 [NC],[("augmented step","nova/src/circuit.rs AugmentedCircuit::run")])
prop("N04","IVC verification enforces every condition of the IVC verifier",
 "For i = 0 verification accepts exactly when z0 equals z_i. For i > 0 it accepts only if cross-term commitment and folded proof are present, the fresh instance's public input is exactly hash(i, z0, z_i, U), its error commitment is trivial, its scalar is one, the folding challenge is the derived one, and both openings verify against the instance the verifier itself folded.",
 ["inputs"],"every proof object and step number",
 "Tests reject one or two tampered proofs; each condition must be enforced on its own.",
 [IV,NV],[("IVC verifier","nova/src/ivc/ivc_verifier.rs IVC::verify"),("folding verifier","nova/src/nifs/nifs_verifier.rs NIFS::verify")])
prop("N05","The IVC hash binds step number, both states and the whole running instance",
 "The public hash covers the step number, z0, z_i and every component of the running instance (error and witness commitments, scalar and all public inputs), each contributing its complete canonical encoding, and nothing else; prover-side circuit and verifier compare it in full.",
 ["inputs"],"every step, state and instance",
 "A component missing from the hash is never noticed by honest runs.",
 [NC,IV],[("hash of public IO","nova/src/circuit.rs AugmentedCircuit::hash_io")])
prop("N06","Relaxed R1CS satisfaction is decided exactly",
 "The satisfaction check succeeds if and only if the witness and public-input lengths match the matrices, Az o Bz = u*Cz + E holds in every row for z = (W, x, u), and both commitments in the instance are the commitments of W and E.",
 ["inputs"],"every R1CS, instance and witness",
 "Tests use one R1CS and witnesses that satisfy it.",
 [NR,NU],[("satisfaction check","nova/src/r1cs/mod.rs is_r1cs_satisfied")])
prop("N07","The Nova folding challenge binds both instances in full",
 "The folding challenge depends on every component of both instances being folded (error commitment, scalar, witness commitment, public inputs) and on the cross-term commitment, so none of them can be chosen after the challenge is known.",
 ["inputs"],"every pair of instances",
 "Exploiting an unbound component needs an adaptive adversary; honest runs cannot show it.",
 [NP,NV,NC],[("challenge derivation","NIFS::prover, NIFS::verify, AugmentedCircuit::run")])
prop("N08","Advancing the recursion moves exactly one step and cannot replay or skip one",
 "A new recursion starts at step zero with z_i = z0 and no pending values. Advancing requires a computed next state, makes it the current state, moves the pending hash to the current hash, increments the step by one and clears the pending values; nothing else changes.",
 ["histories"],"every sequence of run and advance operations",
 "Tests run one short honest history.",
 [NC],[("construction","nova/src/circuit.rs AugmentedCircuit::new"),("advance","nova/src/circuit.rs AugmentedCircuit::next_step")])
prop("N09","Vector helpers compute the linear algebra they name over all entries",
 "Matrix-vector product, element-wise product, scaling, addition, subtraction and equality act on every entry of their inputs; equality is false for different lengths, and addition and subtraction refuse different lengths. Fresh witnesses carry a zero error vector, trivial pairs are all zero, and committing a witness yields the instance with u = 1, its two commitments and the given public input.",
 ["inputs"],"every vector and matrix of every size",
 "No direct tests of most helpers; the folding tests use small fixed sizes.",
 [NU,NR],[("helpers","nova/src/utils.rs"),("instance construction","nova/src/r1cs/mod.rs FWitness, create_trivial_pair")])
prop("N10","IVC proofs assemble the folded pair and the instances it was folded from",
 "For i > 0 the IVC prover folds the fresh pair with the running pair of its input proof under one transcript, proves the folded pair under the same transcript with the very challenge it folded with, and outputs that folded pair together with the unmodified input instances, the cross-term commitment and the folding proof; for i = 0 it returns the running pair and no folding proof.",
 ["inputs","histories"],"every input proof and step",
 "Tests run a few honest steps.",
 [IP,IM,NP],[("IVC prover","nova/src/ivc/ivc_prover.rs IVC::prove"),("folding proof","nova/src/nifs/nifs_prover.rs NIFS::prove")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
