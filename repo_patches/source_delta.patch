From 43d419017ed2a1522972729d158e4a0fcc7284ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 01/15] fix: add both witness points when adding two KZG
 openings

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..c5c6059 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From 192333c54a13af9c4fd3f5d41c317f8034b23b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 02/15] fix: open the zero polynomial in KZG instead of
 panicking

---
 kzg/src/scheme.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..9807e1e 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients, and evaluates to zero
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,9 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From 86e7305795b9d662ce16e7200d054712a5332ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 03/15] fix: separate the elements hashed by fri's hash_slice

---
 fri/src/hasher.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fri/src/hasher.rs b/fri/src/hasher.rs
index 858c79e..f9536bd 100644
--- a/fri/src/hasher.rs
+++ b/fri/src/hasher.rs
@@ -20,6 +20,9 @@ pub fn hash<F: PrimeField>(data: &F) -> F {
 
 /// Computes a cryptographic hash of a slice of field elements using SHA-256.
 ///
+/// Every element is followed by a separator, so that different slices are never hashed
+/// as the same string.
+///
 /// # Arguments
 ///
 /// * `data` - A slice of field elements of type `F`.
@@ -30,7 +33,10 @@ pub fn hash<F: PrimeField>(data: &F) -> F {
 ///
 pub fn hash_slice<F: PrimeField>(data: &[F]) -> F {
     let mut hasher = Sha256::new();
-    data.iter().for_each(|d| hasher.update(d.to_string()));
+    data.iter().for_each(|d| {
+        hasher.update(d.to_string());
+        hasher.update(b",");
+    });
     let h = hasher.finalize();
     F::from_le_bytes_mod_order(&h)
 }
-- 
2.43.0


From 0c80950f86b1285e154bbf164ac68b10d881b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 04/15] fix: include the zero padding leaves in fri's Merkle
 tree

---
 fri/src/merkle_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..d57816c 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -43,6 +43,8 @@ impl<F: PrimeField> MerkleTree<F> {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
 
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
+
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
         let mut internal_nodes = vec![first_level];
@@ -52,8 +54,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From 44c37bdbcb194ed49cf01b01049417bc56df4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 05/15] fix: authenticate FRI queries against the committed
 roots and reject malformed proofs

---
 fri/src/merkle_tree.rs | 12 ++++++++++++
 fri/src/verifier.rs    | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index d57816c..f56c625 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,18 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+impl<F: PrimeField> MerkleProof<F> {
+    /// Returns the root this proof claims to lead to.
+    pub fn root(&self) -> F {
+        self.root
+    }
+
+    /// Returns the depth of the tree this proof claims to belong to.
+    pub fn depth(&self) -> usize {
+        self.hash_proof.len()
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..8327756 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,8 +12,22 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    // the domain must exist and be folded once per layer, starting from the fixed coset
+    if !proof.domain_size.is_power_of_two()
+        || <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_none()
+        || proof.layers_root.len() != proof.domain_size.ilog2() as usize
+    {
+        return Err(String::from("wrong domain size!"));
+    }
+    if proof.coset != F::GENERATOR {
+        return Err(String::from("wrong coset!"));
+    }
+    if proof.decommitment_list.len() != proof.number_of_queries {
+        return Err(String::from("wrong number of decommitments!"));
+    }
+
     // regenerate random_r list
-    let merkle_roots = proof.layers_root;
+    let merkle_roots = proof.layers_root.clone();
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
         .into_iter()
@@ -39,6 +53,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &proof.layers_root,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -51,11 +66,21 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    layers_root: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
     coset: F,
 ) -> Result<(), String> {
+    let number_of_layers = layers_root.len();
+    if decommitment.evaluations.len() != number_of_layers
+        || decommitment.auth_paths.len() != number_of_layers
+        || decommitment.sym_evaluations.len() != number_of_layers
+        || decommitment.sym_auth_paths.len() != number_of_layers
+    {
+        return Err(String::from("wrong number of layers!"));
+    }
+
     let mut cur_domain_size = domain_size;
     let mut cur_coset = coset;
     let two = F::from(2u128);
@@ -84,6 +109,16 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        // the paths must lead to the committed root of this layer
+        let depth = cur_domain_size.ilog2() as usize;
+        if path.root() != layers_root[i]
+            || sym_path.root() != layers_root[i]
+            || path.depth() != depth
+            || sym_path.depth() != depth
+        {
+            return Err(String::from("wrong Merkle root!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From 87bc7566e249c59bc826773e48ddf5e3bdb11b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 06/15] fix: bind both folded instances in full in nova's
 folding challenge

---
 nova/src/circuit.rs            | 10 ++++++----
 nova/src/nifs/mod.rs           | 22 ++++++++++++++++++++++
 nova/src/nifs/nifs_prover.rs   |  5 +----
 nova/src/nifs/nifs_verifier.rs | 14 +++++---------
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..007b773 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -101,10 +101,12 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
-            transcript.feed_scalar_num(u_i.u);
-            transcript.feed_scalar_num(big_u_i.unwrap().u);
-            transcript.feed(com_t.unwrap());
-            let [r] = transcript.generate_challenges();
+            let r = NIFS::<T>::folding_challenge(
+                u_i,
+                big_u_i.unwrap(),
+                com_t.unwrap(),
+                &mut transcript,
+            );
 
             // 3.compute U_{i+1}
             let big_u_i1 = NIFS::<T>::verifier(r, u_i, big_u_i.unwrap(), com_t.unwrap());
diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..b9eb3e9 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -3,6 +3,7 @@ use std::marker::PhantomData;
 use std::ops::Mul;
 
 use crate::r1cs::{FInstance, FWitness, R1CS};
+use crate::transcript::Transcript;
 use crate::utils::{
     hadamard_product, matrix_vector_product, vec_add, vec_sub, vector_elem_product,
 };
@@ -57,6 +58,27 @@ impl<T: Digest + Default> NIFS<T> {
         t
     }
 
+    /// Derive the folding challenge via Fiat-Shamir. It binds both instances in
+    /// full and the commitment of the cross-term.
+    pub(crate) fn folding_challenge(
+        fi1: &FInstance,
+        fi2: &FInstance,
+        com_t: &KzgCommitment,
+        transcript: &mut Transcript<T>,
+    ) -> ScalarField {
+        for fi in [fi1, fi2] {
+            transcript.feed(&fi.com_e);
+            transcript.feed_scalar_num(fi.u);
+            transcript.feed(&fi.com_w);
+            for x in &fi.x {
+                transcript.feed_scalar_num(*x);
+            }
+        }
+        transcript.feed(com_t);
+        let [r] = transcript.generate_challenges();
+        r
+    }
+
     /// Fold two witnesses into one.
     /// E ← E1 + r · T + r^2 · E2
     /// W ← W1 + r · W2
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..ad2339d 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,10 +29,7 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
-        transcript.feed_scalar_num(fi1.u);
-        transcript.feed_scalar_num(fi2.u);
-        transcript.feed(&com_t);
-        let [r] = transcript.generate_challenges();
+        let r = NIFS::<T>::folding_challenge(fi1, fi2, &com_t, transcript);
 
         let new_witness = NIFS::<T>::fold_witness(r, fw1, fw2, &t);
         let new_instance = NIFS::<T>::fold_instance(r, fi1, fi2, &com_t);
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..181c436 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,7 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
-        let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
+        let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
         // verify opening.
@@ -43,19 +43,15 @@ impl<T: Digest + Default> NIFS<T> {
     /// Verify challenge r via Fiat-Shamir
     pub fn verify_challenge(
         r: ScalarField,
-        fi1_u: ScalarField,
-        fi2_u: ScalarField,
+        fi1: &FInstance,
+        fi2: &FInstance,
         com_t: &KzgCommitment,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // Recreate challenge r
-        transcript.feed_scalar_num(fi1_u);
-        transcript.feed_scalar_num(fi2_u);
-        transcript.feed(com_t);
-
-        let [new_r] = transcript.generate_challenges();
+        let new_r = Self::folding_challenge(fi1, fi2, com_t, transcript);
 
-        // Verify that proof.r = Transcript(fi1.u, fi2.u, cmT)
+        // Verify that proof.r = Transcript(fi1, fi2, cmT)
         if new_r != r {
             return Err(String::from("Verify: Error in computing random r"));
         }
-- 
2.43.0


From 8ec0551940d98f573044b79297999779fe4e1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 07/15] fix: require nova's public IO to be exactly the
 expected hash

---
 nova/src/circuit.rs          | 3 +--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 007b773..b0b3437 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..f4f84ec 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From 1cd951c16c0071ff6c6e6daa185caf61df543eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 08/15] fix: run the PLONK prover's transcript under the
 caller's hash

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 3cf0035f84fb2252a3d133455467aa3af66b25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 09/15] fix: absorb the circuit in the PLONK transcript before
 the first challenge

---
 plonk/src/compiled_circuit.rs | 26 ++++++++++++++++++++++++++
 plonk/src/prover.rs           |  3 ++-
 plonk/src/verifier.rs         | 15 ++++++++-------
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/plonk/src/compiled_circuit.rs b/plonk/src/compiled_circuit.rs
index d326a6d..d280439 100644
--- a/plonk/src/compiled_circuit.rs
+++ b/plonk/src/compiled_circuit.rs
@@ -1,3 +1,8 @@
+use ark_bls12_381::Fr;
+
+use kzg::commitment::KzgCommitment;
+use kzg::scheme::KzgScheme;
+
 use crate::constraint::{CopyConstraints, GateConstraints};
 
 /// Represents a compiled circuit with gate and copy constraints.
@@ -39,4 +44,25 @@ impl CompiledCircuit {
     pub fn copy_constraints(&self) -> &CopyConstraints {
         &self.copy_constraint
     }
+
+    /// Commits to the statement: everything public that identifies the circuit being proved.
+    /// Prover and verifier absorb it before deriving any challenge.
+    pub(crate) fn statement_commitments(&self, scheme: &KzgScheme) -> Vec<KzgCommitment> {
+        let gates = &self.gate_constraint;
+        let copies = &self.copy_constraint;
+        vec![
+            scheme.commit_para(Fr::from(self.size as u64)),
+            scheme.commit_para(*copies.k1()),
+            scheme.commit_para(*copies.k2()),
+            scheme.commit(gates.q_mx()),
+            scheme.commit(gates.q_lx()),
+            scheme.commit(gates.q_rx()),
+            scheme.commit(gates.q_ox()),
+            scheme.commit(gates.q_cx()),
+            scheme.commit(gates.pi_x()),
+            scheme.commit(copies.s_sigma_1()),
+            scheme.commit(copies.s_sigma_2()),
+            scheme.commit(copies.s_sigma_3()),
+        ]
+    }
 }
diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..78a0092 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -94,7 +94,8 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<T>::default();
+    let mut challenge =
+        ChallengeGenerator::<T>::from_commitments(&compiled_circuit.statement_commitments(&scheme));
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..794fb2c 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(&proof, &scheme, compiled_circuit);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -188,13 +189,13 @@ fn get_circuit_commitment(
 fn verify_challenges<T: Digest + Default>(
     proof: &Proof,
     scheme: &KzgScheme,
+    compiled_circuit: &CompiledCircuit,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
-    let commitments = [
-        proof.a_commit.clone(),
-        proof.b_commit.clone(),
-        proof.c_commit.clone(),
-    ];
-    let mut challenge = ChallengeGenerator::<T>::from_commitments(&commitments);
+    let mut challenge =
+        ChallengeGenerator::<T>::from_commitments(&compiled_circuit.statement_commitments(scheme));
+    challenge.feed(&proof.a_commit);
+    challenge.feed(&proof.b_commit);
+    challenge.feed(&proof.c_commit);
     let [beta, gamma] = challenge.generate_challenges();
     challenge.feed(&proof.z_commit);
     let [alpha] = challenge.generate_challenges();
-- 
2.43.0


From 1207609cc30b4a9447bc54586431917697618ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 10/15] fix: reject PLONK proofs whose quotient split degree
 exceeds the circuit's

---
 plonk/src/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index 794fb2c..d942d74 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -26,6 +26,14 @@ pub fn verify<T: Digest + Default>(
     #[cfg(test)]
     println!("Precompute");
 
+    // The quotient of a proof for this circuit has at most 3 * size + 6 coefficients,
+    // so each of its three parts has degree at most size + 1.
+    if proof.degree > compiled_circuit.size + 1 {
+        return Err(String::from(
+            "Verify: Degree of the quotient parts too large.",
+        ));
+    }
+
     let scheme = KzgScheme::new(srs.clone());
 
     let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
-- 
2.43.0


From 8bf6b29791b83a43d9e620ba3f3298a3b01121d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 11/15] fix: compile PLONK circuits with a single gate

---
 plonk/src/circuit.rs                               | 3 +--
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..546243c 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -148,8 +148,7 @@ impl Circuit {
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
 
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From b9dbd3f84a4796b5194a150d5da24b44c460d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 12/15] fix: keep selector rows aligned with gates around dummy
 gates of a CPICircuit

---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 9328343..3265269 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -96,10 +96,8 @@ impl CPICircuit {
         result.insert(Self::VEC_QC, vec![]);
         result.insert(Self::VEC_PI, vec![]);
 
+        // dummy gates are all-zero rows
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From a36a25322d16bc305f2baf52779c849ba320b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 13/15] fix: give CPI circuits the same constant gates as
 Parser for negated constants

---
 plonk/src/common_preprocessed_input/cpi_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..2f1b03d 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -268,7 +268,7 @@ impl CPIGenerator {
                         left,
                         right,
                         bottom,
-                        Fr::from(gate.left.value_string.parse::<i32>().unwrap()),
+                        Self::parse_constant(&gate.left.value_string).unwrap(),
                         Fr::from(0),
                     );
                 }
@@ -338,6 +338,14 @@ impl CPIGenerator {
         result
     }
 
+    /// Value of a constant, which may carry a minus sign of its own after the one of its term
+    fn parse_constant(value: &str) -> Option<Fr> {
+        match value.strip_prefix('-') {
+            Some(rest) => rest.parse::<i32>().ok().map(|constant| -Fr::from(constant)),
+            None => value.parse::<i32>().ok().map(Fr::from),
+        }
+    }
+
     /// Check if the value represents a constant and generate a constant gate if so
     fn check_constant(
         &self,
@@ -346,7 +354,7 @@ impl CPIGenerator {
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
         value: String,
     ) {
-        if value.parse::<i32>().is_ok() {
+        if Self::parse_constant(&value).is_some() {
             self.generate_constant_gate(gate_list, gate_set, position_map, ParserWire::new(value));
         };
     }
-- 
2.43.0


From c0de14dc4c9b5ee5f59f30af6293af0b9440cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 14/15] fix: link constants written with leading zeros to their
 constant gate

---
 plonk/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..ebeb9a1 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -327,11 +327,11 @@ impl Parser {
                 let constant = value.parse::<i32>().unwrap();
                 let wire = if is_negative {
                     Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
+                        "-".to_string() + value,
                         Fr::from(constant).neg(),
                     )
                 } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
+                    Wire::new(value.to_string(), Fr::from(constant))
                 };
                 #[cfg(test)]
                 println!("{:?} {}", wire, is_negative);
-- 
2.43.0


From d23740a70466a140c201ed6a0de9ea0d87e2cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 15/15] fix: expand powers of constants and multi-character
 operands correctly

---
 .../common_preprocessed_input/cpi_parser.rs   | 38 +++++++++++-----
 plonk/src/parser.rs                           | 43 ++++++++++++-------
 2 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 2f1b03d..38a7c13 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -386,7 +386,8 @@ impl CPIGenerator {
     fn normalize(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the operand an exponent applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -395,37 +396,52 @@ impl CPIGenerator {
             }
             if char == '^' {
                 flag = true;
+                number_buffer.clear();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::expand_power(&mut result, &base, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if matches!(char, '+' | '-' | '*' | '=') {
+                    base.clear();
+                } else {
+                    base.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    base.push(char);
                     result.push(char);
                 }
             }
         }
         if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+            Self::expand_power(&mut result, &base, &number_buffer);
         }
         result
     }
+
+    /// Replace the operand at the end of `result` by its power
+    fn expand_power(result: &mut String, base: &str, exponent: &str) {
+        match exponent.parse::<i32>().unwrap() {
+            0 => {
+                result.truncate(result.len() - base.len());
+                result.push('1');
+            }
+            exponent => {
+                for _ in 0..exponent - 1 {
+                    result.push('*');
+                    result.push_str(base);
+                }
+            }
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index ebeb9a1..8c5a20e 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -326,10 +326,7 @@ impl Parser {
                 eprintln!("value = {:#?}", value);
                 let constant = value.parse::<i32>().unwrap();
                 let wire = if is_negative {
-                    Wire::new(
-                        "-".to_string() + value,
-                        Fr::from(constant).neg(),
-                    )
+                    Wire::new("-".to_string() + value, Fr::from(constant).neg())
                 } else {
                     Wire::new(value.to_string(), Fr::from(constant))
                 };
@@ -373,7 +370,8 @@ impl Parser {
     fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the operand an exponent applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -382,37 +380,52 @@ impl Parser {
             }
             if char == '^' {
                 flag = true;
+                number_buffer.clear();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::expand_power(&mut result, &base, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if matches!(char, '+' | '-' | '*' | '=') {
+                    base.clear();
+                } else {
+                    base.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    base.push(char);
                     result.push(char);
                 }
             }
         }
         if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+            Self::expand_power(&mut result, &base, &number_buffer);
         }
         result
     }
+
+    /// Replace the operand at the end of `result` by its power
+    fn expand_power(result: &mut String, base: &str, exponent: &str) {
+        match exponent.parse::<i32>().unwrap() {
+            0 => {
+                result.truncate(result.len() - base.len());
+                result.push('1');
+            }
+            exponent => {
+                for _ in 0..exponent - 1 {
+                    result.push('*');
+                    result.push_str(base);
+                }
+            }
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0

