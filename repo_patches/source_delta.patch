From a0e59a70545cb809cfcfcd71aa8177ace11cfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/18] hooks: cfg(qesa_hooks) access to private protocol
 layers and proof parts for verification

---
 src/copy/copy.rs      |  21 +++++++++
 src/copy/mod.rs       |   6 +++
 src/hooks.rs          | 104 ++++++++++++++++++++++++++++++++++++++++++
 src/ipa/alm_zk.rs     |  10 ++++
 src/lib.rs            |   3 ++
 src/lmpa/no_zk.rs     |  46 +++++++++++++++++++
 src/lmpa/simple_zk.rs |  20 ++++++++
 src/qesa_zk.rs        |  10 ++++
 8 files changed, 220 insertions(+)
 create mode 100644 src/hooks.rs

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..c52e116 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -233,6 +233,27 @@ impl Copy {
         proof_inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
     }
 }
+#[cfg(qesa_hooks)]
+impl Copy {
+    pub fn hook_parts(&self) -> (CompressedRistretto, qesa_inner::Inner) {
+        (self.C_w, self.inner.clone())
+    }
+    pub fn hook_from_parts(C_w: CompressedRistretto, inner: qesa_inner::Inner) -> Self {
+        Copy { C_w, inner }
+    }
+    pub fn hook_verify(
+        &self,
+        transcript: &mut Transcript,
+        G_Vec: Vec<RistrettoPoint>,
+        H_Vec: Vec<RistrettoPoint>,
+        Q: &RistrettoPoint,
+        gamma_i: BlockMatrix,
+        map: Mapping,
+        commitments: Vec<RistrettoPoint>,
+    ) -> bool {
+        self.verify(transcript, G_Vec, H_Vec, Q, gamma_i, map, commitments)
+    }
+}
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/copy/mod.rs b/src/copy/mod.rs
index 1467674..fe1d7e2 100644
--- a/src/copy/mod.rs
+++ b/src/copy/mod.rs
@@ -1,2 +1,8 @@
 mod copy;
 mod mapping;
+
+#[cfg(qesa_hooks)]
+pub mod exports {
+    pub use super::copy::{create, Copy};
+    pub use super::mapping::{commit, compute_mapping, Mapping, MessageMap};
+}
diff --git a/src/hooks.rs b/src/hooks.rs
new file mode 100644
index 0000000..b232c26
--- /dev/null
+++ b/src/hooks.rs
@@ -0,0 +1,104 @@
+//! Verification hooks: only compiled with `--cfg qesa_hooks`.
+//! They re-export the private protocol layers and give a monitor read and
+//! write access to the parts of a proof. They contain no protocol logic.
+#![allow(non_snake_case)]
+
+pub use crate::copy::exports as copy;
+pub use crate::ipa::{alm_zk, gramschmidt, no_zk as ipa_no_zk, qesa_inner};
+pub mod math_utils {
+    pub use crate::math_utils::*;
+}
+
+use curve25519_dalek::{ristretto::CompressedRistretto, scalar::Scalar};
+
+impl ipa_no_zk::NoZK {
+    pub fn hook_parts(
+        &self,
+    ) -> (
+        Vec<CompressedRistretto>,
+        Vec<CompressedRistretto>,
+        Scalar,
+        Scalar,
+    ) {
+        (self.L_vec.clone(), self.R_vec.clone(), self.a, self.b)
+    }
+    pub fn hook_from_parts(
+        L_vec: Vec<CompressedRistretto>,
+        R_vec: Vec<CompressedRistretto>,
+        a: Scalar,
+        b: Scalar,
+    ) -> Self {
+        ipa_no_zk::NoZK { L_vec, R_vec, a, b }
+    }
+}
+
+impl qesa_inner::Inner {
+    pub fn hook_parts(&self) -> (alm_zk::AlmZK, CompressedRistretto, CompressedRistretto) {
+        (self.alm_zk.clone(), self.c_prime_w, self.c_prime_prime_w)
+    }
+    pub fn hook_from_parts(
+        alm_zk: alm_zk::AlmZK,
+        c_prime_w: CompressedRistretto,
+        c_prime_prime_w: CompressedRistretto,
+    ) -> Self {
+        qesa_inner::Inner {
+            alm_zk,
+            c_prime_w,
+            c_prime_prime_w,
+        }
+    }
+}
+
+impl copy::Mapping {
+    /// (number of commitments, [(id, commitment index, crs id, position)], reserved indices, last index)
+    pub fn hook_parts(
+        &self,
+    ) -> (
+        usize,
+        Vec<(usize, u16, u16, u16)>,
+        std::collections::BTreeSet<u16>,
+        u16,
+    ) {
+        (
+            self.num_commitments,
+            self.msgs_map
+                .iter()
+                .map(|m| {
+                    (
+                        m.msg_id,
+                        m.commitment_index,
+                        m.commitment_crs_id,
+                        m.position_in_witness,
+                    )
+                })
+                .collect(),
+            self.unique_commitment_indices.clone(),
+            self.last_index,
+        )
+    }
+    pub fn hook_from_parts(
+        num_commitments: usize,
+        msgs: Vec<(usize, u16, u16, u16)>,
+        unique_commitment_indices: std::collections::BTreeSet<u16>,
+        last_index: u16,
+    ) -> Self {
+        copy::Mapping {
+            num_commitments,
+            msgs_map: msgs
+                .into_iter()
+                .map(
+                    |(msg_id, commitment_index, commitment_crs_id, position_in_witness)| {
+                        copy::MessageMap {
+                            msg_id,
+                            commitment_index,
+                            commitment_crs_id,
+                            position_in_witness,
+                        }
+                    },
+                )
+                .collect(),
+            unique_commitment_indices,
+            last_index,
+        }
+    }
+}
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..c6f4c55 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -112,6 +112,16 @@ impl AlmZK {
     }
 }
 
+#[cfg(qesa_hooks)]
+impl AlmZK {
+    pub fn hook_parts(&self) -> (CompressedRistretto, no_zk::NoZK) {
+        (self.C_r, self.NoZK.clone())
+    }
+    pub fn hook_from_parts(C_r: CompressedRistretto, NoZK: no_zk::NoZK) -> Self {
+        AlmZK { C_r, NoZK }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index c596d75..3295b1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,9 @@ pub mod matrix;
 pub mod qesa_zk;
 pub mod transcript;
 
+#[cfg(qesa_hooks)]
+pub mod hooks;
+
 #[cfg(test)]
 mod tests {
     #[test]
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..847e301 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -383,6 +383,52 @@ impl lmpa_noZK {
 }
 
 
+#[cfg(qesa_hooks)]
+impl NoZK {
+    pub fn hook_parts(&self) -> (Vec<Vec<RistrettoPoint>>, Vec<Vec<RistrettoPoint>>, Scalar) {
+        (self.L_Vec.clone(), self.R_Vec.clone(), self.w)
+    }
+    pub fn hook_from_parts(
+        L_Vec: Vec<Vec<RistrettoPoint>>,
+        R_Vec: Vec<Vec<RistrettoPoint>>,
+        w: Scalar,
+    ) -> Self {
+        NoZK { L_Vec, R_Vec, w }
+    }
+}
+
+#[cfg(qesa_hooks)]
+impl lmpa_noZK {
+    pub fn hook_parts(
+        &self,
+    ) -> (
+        Vec<Vec<RistrettoPoint>>,
+        Vec<RistrettoPoint>,
+        Vec<Scalar>,
+        Vec<Vec<Vec<RistrettoPoint>>>,
+    ) {
+        (
+            self.A_Matrix.clone(),
+            self.t_Vec.clone(),
+            self.w_Vec.clone(),
+            self.u_proof_Block.clone(),
+        )
+    }
+    pub fn hook_from_parts(
+        A_Matrix: Vec<Vec<RistrettoPoint>>,
+        t_Vec: Vec<RistrettoPoint>,
+        w_Vec: Vec<Scalar>,
+        u_proof_Block: Vec<Vec<Vec<RistrettoPoint>>>,
+    ) -> Self {
+        lmpa_noZK {
+            A_Matrix,
+            t_Vec,
+            w_Vec,
+            u_proof_Block,
+        }
+    }
+}
+
 
 use sha3::Sha3_512;
 
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..33f5161 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -148,6 +148,26 @@ impl SimpleZK {
     }
 }
 
+#[cfg(qesa_hooks)]
+impl SimpleZK {
+    pub fn hook_parts(&self) -> (&no_zk::NoZK, Vec<RistrettoPoint>) {
+        (&self.no_zk, self.a.clone())
+    }
+    pub fn hook_from_parts(no_zk: no_zk::NoZK, a: Vec<RistrettoPoint>) -> Self {
+        SimpleZK { no_zk, a }
+    }
+}
+
+#[cfg(qesa_hooks)]
+impl SimpleZK_general {
+    pub fn hook_parts(&self) -> (&no_zk::lmpa_noZK, Vec<RistrettoPoint>) {
+        (&self.lamp_no_zk, self.a.clone())
+    }
+    pub fn hook_from_parts(lamp_no_zk: no_zk::lmpa_noZK, a: Vec<RistrettoPoint>) -> Self {
+        SimpleZK_general { a, lamp_no_zk }
+    }
+}
+
 use sha3::Sha3_512;
 
 #[test]
diff --git a/src/qesa_zk.rs b/src/qesa_zk.rs
index 5f4b0a0..ef11249 100644
--- a/src/qesa_zk.rs
+++ b/src/qesa_zk.rs
@@ -44,3 +44,13 @@ impl Zk {
         self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)
     }
 }
+
+#[cfg(qesa_hooks)]
+impl Zk {
+    pub fn hook_parts(&self) -> qesa_inner::Inner {
+        self.inner.clone()
+    }
+    pub fn hook_from_parts(inner: qesa_inner::Inner) -> Self {
+        Zk { inner }
+    }
+}
-- 
2.43.0


From 7ad162a153eccf19863a5ae21e5f33f05f10cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 02/18] fix: two-way linear map verifier checks every row of
 the target, not only the first

---
 src/lmpa/no_zk.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 847e301..99e4993 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -233,6 +233,11 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // One target per row of the map
+        if t.len() != A.len() {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -280,7 +285,8 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        // Every row of the map must agree, not only the first one
+        expected_t == t
     }
 }
 
-- 
2.43.0


From 43c64393cbda2217625b3032686b25b91da7852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 03/18] fix: k-ary zero-knowledge linear map prover sends the
 blinded witness, not the witness itself

---
 src/lmpa/simple_zk.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 33f5161..f36146c 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -79,10 +79,17 @@ pub fn create_general(
         .map(|(witness, random)| beta * witness + random)
         .collect();
 
+    //The target that matches the blinded witness.
+    t = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
+
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
+        w_prime,
         t.clone(),
         n, //cols
         m, //rows
-- 
2.43.0


From 6cc39b3cc893f8f7a7b41a12707eabcbd35bbb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 04/18] fix: k-ary linear map verifier checks the proof against
 the verifier's own map and target

---
 src/lmpa/no_zk.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 99e4993..35052e2 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -313,6 +313,11 @@ impl lmpa_noZK {
             let vec_len = 2*shift+1; // index 0~2*shift
             
 
+            // The middle entry of a round is the target it reduces
+            if self.u_proof_Block[challenge_index][shift] != t {
+                return false;
+            }
+
             for u_v in self.u_proof_Block[challenge_index].iter() {
                 for u_l in u_v.iter() {
                     transcript.append_message(b"u_l", u_l.compress().as_bytes());
@@ -382,9 +387,14 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        // The folded statement in the proof must be the one the verifier computed
+        if self.A_Matrix != A || self.t_Vec != t {
+            return false;
+        }
+
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
-- 
2.43.0


From b37efaab78e47ccc1c6db9f2675193d6a107b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 05/18] fix: linear map provers and verifiers no longer print
 the witness and challenges to stdout

---
 src/lmpa/no_zk.rs | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 35052e2..5a9cecd 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -59,7 +59,6 @@ pub fn create(
         R_Vec.push(R);
 
         let challenge = transcript.challenge_scalar(b"challenge");
-        println!("zouyudi-create challenge:{:?}", challenge);
 
         let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
         A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
@@ -102,7 +101,6 @@ pub fn create_lmpa_noZK(
         let chunk_size = n/k;
         let A_T = matrix_split(&A, chunk_size);
         let w_T: Vec<_> = matrix_split(&vec![w.clone()], chunk_size);
-        println!("A_T:{:?}\n, w_T:{:?}", A_T, w_T);
 
         let mut i = 0;
         let mut j = 0;
@@ -114,7 +112,6 @@ pub fn create_lmpa_noZK(
                 let l = shift + j - i;
                 if( l != shift) {
                     let u_l_t = matrixpoint_vector_mul(&A_t, &w_vec[0]);
-                    println!("u_l_t:{:?}, u_vec_l: {:?}", u_l_t, u_vec[l]);
                     u_vec[l] = rowpoint_rowpoint_add(&u_vec[l], &u_l_t);
                    
                 } else {
@@ -128,7 +125,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         j = 0;
 
-        println!("u_vec: {:?}", u_vec);
 
         for u_v in u_vec.iter() {
             for u_l in u_v.iter() {
@@ -140,10 +136,8 @@ pub fn create_lmpa_noZK(
         let x = transcript.challenge_scalar(b"challenge_x");
 
         let x_vec: Vec<_> = vandemonde_vector(x, k); 
-        println!("x_vec: {:?}", x_vec);
 
         let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-        println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
         let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
         for x in x_vec.clone() {
@@ -161,7 +155,6 @@ pub fn create_lmpa_noZK(
         }
         i = 0;
         j = 0;
-        println!("z_vec: {:?}", z_vec);
 
         let mut new_A: Vec<_> = Vec::new();
         while i < k {
@@ -176,7 +169,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         
         A = new_A.pop().unwrap();
-        println!("A: {:?}", A);
 
         let mut new_w: Vec<_> = Vec::new();
         while i < k {
@@ -191,7 +183,6 @@ pub fn create_lmpa_noZK(
         i = 0;
 
         w = new_w.pop().unwrap().pop().unwrap();
-        println!("w:{:?}", w);
 
         let mut new_t: Vec<_> = Vec::new();
         while i < vec_len {
@@ -203,9 +194,7 @@ pub fn create_lmpa_noZK(
             }
             i += 1;
         }
-        println!("new_t:{:?}", new_t);
         t = new_t.pop().unwrap();
-        println!("t:{:?}", t);
 
         i = 0;
         j = 0;
@@ -267,7 +256,6 @@ impl NoZK {
             }
 
             let challenge = transcript.challenge_scalar(b"challenge");
-            println!("zouyudi-verify challenge:{:?}", challenge);
             let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
             A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
 
@@ -327,10 +315,8 @@ impl lmpa_noZK {
             let x = transcript.challenge_scalar(b"challenge_x");
 
             let x_vec: Vec<_> = vandemonde_vector(x, k); 
-            println!("x_vec: {:?}", x_vec);
 
             let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-            println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
             let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
             for x in x_vec.clone() {
@@ -348,7 +334,6 @@ impl lmpa_noZK {
             }
             i = 0;
             j = 0;
-            println!("z_vec: {:?}", z_vec);
 
             let mut new_A: Vec<_> = Vec::new();
             while i < k {
@@ -363,7 +348,6 @@ impl lmpa_noZK {
             i = 0;
             
             A = new_A.pop().unwrap();
-            println!("A: {:?}", A);
 
            
 
@@ -377,9 +361,7 @@ impl lmpa_noZK {
                 }
                 i += 1;
             }
-            println!("new_t:{:?}", new_t);
             t = new_t.pop().unwrap();
-            println!("t:{:?}", t);
 
             i = 0;
             j = 0;
-- 
2.43.0


From 8e793ede8644cd27f0e88bd85dbfcca80ae81217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 06/18] fix: quadratic argument enforces every equation when
 there are more equations than generators

---
 src/ipa/qesa_inner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..01cbfca 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,11 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    //
+    // There is at least one challenge per matrix, so that no matrix is left out of the batch
+    let num_challenges = n.max(gamma_i.block.len());
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -131,7 +134,9 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        let num_challenges = n.max(gamma_i.block.len());
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
-- 
2.43.0


From a0f74a196e059746dc3d4f1c033d7d6000fb2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/18] fix: commitment mapping refuses reserved and
 out-of-range commitment indices

---
 src/copy/mapping.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..e7c967b 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -66,6 +66,9 @@ pub fn compute_mapping(
     witness_size: usize,
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
+    // Positions and indices are stored as u16
+    assert!(n <= u16::max_value() as usize);
+    assert!(witness_size <= n);
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
@@ -78,7 +81,10 @@ pub fn compute_mapping(
         .collect();
 
     // The first element in the witness is reserved and so users cannot commit to it.
-    unique_indices.contains(&0);
+    assert!(!unique_indices.contains(&0));
+
+    // The last two elements are reserved for randomness and so users cannot commit to them either.
+    assert!(unique_indices.iter().all(|index| *index < n - 2));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From 7bdf672389a6c4babf3dc3c920dd9bd224bdb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/18] fix: orthogonal sampling handles zero, already
 orthogonal and self-orthogonal vectors

---
 src/ipa/gramschmidt.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/ipa/gramschmidt.rs b/src/ipa/gramschmidt.rs
index a4834d1..864d62a 100644
--- a/src/ipa/gramschmidt.rs
+++ b/src/ipa/gramschmidt.rs
@@ -32,7 +32,18 @@ pub fn orth(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
     let aa: Scalar = inner_product(&a, &a);
     let ab: Scalar = inner_product(&a, &b);
 
-    assert_ne!(Scalar::zero(), ab);
+    // `b` is already orthogonal to `a`
+    if ab == Scalar::zero() {
+        return b.to_vec();
+    }
+
+    // `a` is orthogonal to itself, so there is no projection onto it; correct one entry of `b` instead
+    if aa == Scalar::zero() {
+        let k = a.iter().position(|k| *k != Scalar::zero()).unwrap();
+        let mut corrected = b.to_vec();
+        corrected[k] -= ab * a[k].invert();
+        return corrected;
+    }
 
     let x: Scalar = ab * aa.invert();
 
@@ -57,7 +68,21 @@ pub fn sample_gram_schmidt_twice(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
     let orth_a_b = orth(a, &b);
     let orth_a_sample = sample_gram_schmidt(a);
 
-    orth(&orth_a_b, &orth_a_sample)
+    let r = orth(&orth_a_b, &orth_a_sample);
+
+    // This only happens if `a` or `orth_a_b` is orthogonal to itself; use a second sample as direction instead
+    if inner_product(&r, &a) != Scalar::zero() || inner_product(&r, &b) != Scalar::zero() {
+        let direction = sample_gram_schmidt(a);
+        let x: Scalar =
+            inner_product(&orth_a_sample, &b) * inner_product(&direction, &b).invert();
+        return orth_a_sample
+            .iter()
+            .zip(direction.iter())
+            .map(|(r, s)| r - s * x)
+            .collect();
+    }
+
+    r
 }
 
 #[test]
-- 
2.43.0


From 0470ca60287d4651cb8446c3d9d1cbeaf56dc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 09/18] fix: verifiers reject malformed proofs instead of
 panicking or ignoring surplus parts

---
 src/copy/copy.rs      |  5 ++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/no_zk.rs      | 17 +++++++++++++----
 src/ipa/qesa_inner.rs | 10 ++++++++--
 src/lmpa/no_zk.rs     | 26 ++++++++++++++++++++++++++
 5 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index c52e116..fb39cc6 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -187,7 +187,10 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        commitment = match self.C_w.decompress() {
+            Some(C_w) => commitment + C_w,
+            None => return false,
+        };
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c6f4c55..ee56a5c 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(C_r) => C_r,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..51fb547 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,11 +122,20 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
+        // A malformed proof is rejected: every point must decompress
+        // and there must be one pair of points per round
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
+        let lg_n = n.trailing_zeros() as usize;
+        if !n.is_power_of_two() || Ls.len() != lg_n || Rs.len() != lg_n {
+            return false;
+        }
 
-        let mut n = 1 << Ls.len();
+        let mut n = n;
 
         transcript.append_u64(b"n", n as u64);
 
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 01cbfca..a3d1038 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -130,7 +130,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(c_prime_w) => c_prime_w,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -149,7 +152,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(c_prime_prime_w) => c_prime_prime_w,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 5a9cecd..3d99382 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -227,6 +227,18 @@ impl NoZK {
             return false;
         }
 
+        // A malformed proof is rejected: one pair of responses per round, one entry per row
+        let mut rounds = 0;
+        while n >> rounds > 1 {
+            rounds += 1;
+        }
+        if self.L_Vec.len() != rounds
+            || self.R_Vec.len() != rounds
+            || self.L_Vec.iter().chain(self.R_Vec.iter()).any(|u| u.len() != t.len())
+        {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -301,6 +313,13 @@ impl lmpa_noZK {
             let vec_len = 2*shift+1; // index 0~2*shift
             
 
+            // A malformed proof is rejected: there must be a block for every round
+            // and it must have the right shape
+            match self.u_proof_Block.get(challenge_index) {
+                Some(u) if u.len() == vec_len && u.iter().all(|u_l| u_l.len() == t.len()) => {}
+                _ => return false,
+            }
+
             // The middle entry of a round is the target it reduces
             if self.u_proof_Block[challenge_index][shift] != t {
                 return false;
@@ -374,6 +393,13 @@ impl lmpa_noZK {
             return false;
         }
 
+        // No block may be left over, and the folded witness has one entry per column
+        if self.u_proof_Block.len() != challenge_index
+            || A.iter().any(|row| row.len() != self.w_Vec.len())
+        {
+            return false;
+        }
+
         let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
         expected_t == t
-- 
2.43.0


From 9bf599ec554d5cf7a831d5f266436d0f7adf2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/18] fix: copy verifier checks the commitment carried by the
 inner proof

---
 src/copy/copy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index fb39cc6..ecd21a7 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -192,6 +192,11 @@ impl Copy {
             None => return false,
         };
 
+        // The inner proof must be about that commitment
+        if self.inner.c_prime_w != commitment.compress() {
+            return false;
+        }
+
         // 3. Modify gamma to match the new commited values
         //
         let zeroes: Vec<Scalar> = (0..n - 2).map(|_| Scalar::zero()).collect();
-- 
2.43.0


From 197d4cc984605e8ceb2f8c5a17d8194539afcdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 11/18] fix: quadratic argument binds the equations into the
 transcript before the first challenge

---
 src/ipa/qesa_inner.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index a3d1038..7833adf 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -30,6 +30,8 @@ pub fn create(
     assert_eq!(w.len(), n - 2);
     assert_eq!(r_prime.len(), 2);
 
+    append_equations(transcript, gamma_i);
+
     // 1. Compute w' (extended witness)
     //
     let w_prime = [&w[..], &r_prime[..]].concat();
@@ -127,6 +129,8 @@ impl Inner {
     ) -> bool {
         let n = H_Vec.len();
 
+        append_equations(transcript, gamma_i);
+
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
@@ -196,6 +200,17 @@ impl Inner {
     }
 }
 
+// Adds the equations to the transcript, so that every challenge depends on the statement.
+// Otherwise a prover could choose the equations after seeing the challenges which batch them.
+fn append_equations(transcript: &mut Transcript, gamma_i: &BlockMatrix) {
+    for matrix in gamma_i.block.iter() {
+        for row in matrix.iter() {
+            let row_bytes: Vec<u8> = row.iter().flat_map(|x| x.as_bytes().to_vec()).collect();
+            transcript.append_message(b"gamma", &row_bytes);
+        }
+    }
+}
+
 fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     // Pad the gamma rows with zeroes at the end (iss#1)
     let mut gamma_prime: Vec<Vec<Scalar>> = gamma
-- 
2.43.0


From 4117de6f600feafcf6c046f480e6a341bdbd5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 12/18] fix: copy argument binds the external commitments into
 the transcript before the first challenge

---
 src/copy/copy.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index ecd21a7..6a50c32 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -1,5 +1,5 @@
 #![allow(non_snake_case)]
-use crate::copy::mapping::{Mapping, MessageMap};
+use crate::copy::mapping::{commit, Mapping, MessageMap};
 use crate::ipa::qesa_inner;
 use crate::math_utils::vandemonde_challenge;
 use crate::matrix::*;
@@ -10,6 +10,7 @@ use curve25519_dalek::{
     traits::VartimeMultiscalarMul,
 };
 use merlin::Transcript;
+use std::collections::BTreeSet;
 /// Qesa_Zk alone is used to ensure quadratic eqaution satisfiability
 /// It cannot provide any guarantees regarding external input such as Pedersen Commitments
 /// Qesa_Copy acts as a layer on top to allow us to `map` commitments onto the witness
@@ -64,6 +65,19 @@ pub fn create(
         w_prime[msg_map.position_in_witness as usize] = *msg;
     }
 
+    // Add the commitments to the transcript, so that the challenges depend on the statement.
+    // Otherwise a prover could choose the commitments after seeing the challenges which aggregate them.
+    for (crs_id, (msgs, rnd)) in openings.iter().enumerate() {
+        let indices: BTreeSet<u16> = map
+            .msgs_map
+            .iter()
+            .filter(|x| x.commitment_crs_id as usize == crs_id)
+            .map(|x| x.commitment_index)
+            .collect();
+        let commitment = commit(&G_Vec, &indices, msgs, rnd);
+        transcript.append_message(b"commitment", commitment.compress().as_bytes());
+    }
+
     // 5. Compute commitment (C_w) to witness
     //
     let C_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());
@@ -173,8 +187,11 @@ impl Copy {
     ) -> bool {
         let n = G_Vec.len();
 
-        //1. Add commited witness to the transcript
+        //1. Add the commitments and the commited witness to the transcript
         //
+        for commitment in commitments.iter() {
+            transcript.append_message(b"commitment", commitment.compress().as_bytes());
+        }
         transcript.append_message(b"c_w", self.C_w.as_bytes());
 
         // 2. Use challenge to adjust the commitment values
-- 
2.43.0


From c6678f5afa7127a73c746e5db582f50524208a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 13/18] fix: linear map arguments bind the map and the target
 into the transcript before the first challenge

---
 src/lmpa/no_zk.rs     | 23 +++++++++++++++++++++++
 src/lmpa/simple_zk.rs |  7 +++++++
 2 files changed, 30 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 3d99382..2adab07 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -24,6 +24,8 @@ pub fn create(
 ) -> NoZK {
     let mut n = G_Vec.len();
 
+    append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
@@ -77,6 +79,21 @@ pub fn create(
     }
 }
 
+// Adds the map and its target to the transcript, so that every challenge depends on the statement.
+// Otherwise a prover could choose the target after seeing the challenges.
+pub(crate) fn append_statement(
+    transcript: &mut Transcript,
+    A: &Vec<Vec<RistrettoPoint>>,
+    t: &[RistrettoPoint],
+) {
+    for element in A.iter().flatten() {
+        transcript.append_message(b"A", element.compress().as_bytes());
+    }
+    for element in t.iter() {
+        transcript.append_message(b"t", element.compress().as_bytes());
+    }
+}
+
 // For protocol 3.9 in qesa paper.
 pub struct lmpa_noZK{
     A_Matrix: Vec<Vec<RistrettoPoint>>,
@@ -96,6 +113,8 @@ pub fn create_lmpa_noZK(
     zero: RistrettoPoint,
 ) -> lmpa_noZK
 {
+    append_statement(transcript, &A, &t);
+
     let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
     while n >= k {
         let chunk_size = n/k;
@@ -239,6 +258,8 @@ impl NoZK {
             return false;
         }
 
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -302,6 +323,8 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
         while n >= k {
             let chunk_size = n/k;
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index f36146c..b417f1d 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -25,6 +25,8 @@ pub fn create(
 ) -> SimpleZK {
     let mut n = G_Vec.len();
 
+    no_zk::append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -63,6 +65,8 @@ pub fn create_general(
     k: usize,
 ) -> SimpleZK_general {
 
+    no_zk::append_statement(transcript, &A, &t);
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -111,6 +115,7 @@ impl SimpleZK_general {
         m: usize,
         k: usize,
     ) -> bool {
+        no_zk::append_statement(transcript, &A, &t);
 
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
@@ -140,6 +145,8 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        no_zk::append_statement(transcript, &A, &t);
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From f07ec4d917f39c8dce1d40d8811ac7790a01d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 14/18] fix: zero-knowledge linear map verifiers reject a mask
 commitment of the wrong length

---
 src/lmpa/simple_zk.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index b417f1d..44b2a67 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -122,6 +122,11 @@ impl SimpleZK_general {
         }
         let beta = transcript.challenge_scalar(b"beta");
 
+        // A malformed proof is rejected: one entry per row
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         t = t
             .iter()
             .zip(self.a.iter())
@@ -152,6 +157,11 @@ impl SimpleZK {
         }
         let beta = transcript.challenge_scalar(b"beta");
 
+        // A malformed proof is rejected: one entry per row
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         t = t
             .iter()
             .zip(self.a.iter())
-- 
2.43.0


From 4e8b779c3d215d93350527a20c7901e2e349784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 15/18] fix: the challenge that fixes the first witness entry
 is independent of the batching challenges

---
 src/ipa/qesa_inner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 7833adf..7bfcf76 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -57,7 +57,9 @@ pub fn create(
 
     //5. Fix the first element of the witness to be one (see paper)
     //
-    let beta = x_challenges[1];
+    // `beta` is independent of the challenges that batch the matrices; otherwise the effect of
+    // another first element on one matrix could cancel out the error of another matrix
+    let beta = transcript.challenge_scalar(b"beta");
     G_Vec[0] = G_Vec[0] * beta.invert();
 
     //6. Compute r'' by rotating the r' by 90 degrees
@@ -151,7 +153,7 @@ impl Inner {
 
         //4. Fix the first element of the witness to be one (see paper)
         //
-        let beta = x_challenges[1];
+        let beta = transcript.challenge_scalar(b"beta");
         G_Vec[0] = G_Vec[0] * beta.invert();
 
         //5. Decompress the commitment (C''_w)
-- 
2.43.0


From 6d795971db9e924cb7cfcdc498d2c530d56cc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 16/18] fix: the second witness commitment cannot open to a
 part of the witness chosen after the batching challenges

---
 src/ipa/qesa_inner.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 7bfcf76..7e92e36 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -20,7 +20,7 @@ pub struct Inner {
 pub fn create(
     transcript: &mut Transcript,
     mut G_Vec: Vec<RistrettoPoint>,
-    H_Vec: Vec<RistrettoPoint>,
+    mut H_Vec: Vec<RistrettoPoint>,
     Q: &RistrettoPoint,
     gamma_i: &BlockMatrix,
     w: Vec<Scalar>,
@@ -79,6 +79,13 @@ pub fn create(
         RistrettoPoint::vartime_multiscalar_mul(w_prime_prime.iter(), H_Vec.iter());
     transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
+    // Separate the two commitments by scaling the second one and its generators.
+    // Otherwise C''_w could open to a part of the witness, which is chosen after the challenges `x`
+    let delta = transcript.challenge_scalar(b"delta");
+    for H_i in H_Vec.iter_mut() {
+        *H_i = *H_i * delta;
+    }
+
     //9. Compute `s` and `b` challenges
     //
     // `s` must be of size `n-2` and b must be of size `2`
@@ -125,7 +132,7 @@ impl Inner {
         &self,
         transcript: &mut Transcript,
         mut G_Vec: Vec<RistrettoPoint>,
-        H_Vec: Vec<RistrettoPoint>,
+        mut H_Vec: Vec<RistrettoPoint>,
         Q: &RistrettoPoint,
         gamma_i: &BlockMatrix,
     ) -> bool {
@@ -165,6 +172,12 @@ impl Inner {
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
+        // Separate the two commitments by scaling the second one and its generators
+        let delta = transcript.challenge_scalar(b"delta");
+        for H_i in H_Vec.iter_mut() {
+            *H_i = *H_i * delta;
+        }
+
         //6. Compute `s` and `b` challenges
         //
         let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
@@ -190,7 +203,7 @@ impl Inner {
         // 9. Compute commitment (C_w) to witness
         //
         let mut C_w = c_prime_w
-            + c_prime_prime_w
+            + delta * c_prime_prime_w
             + RistrettoPoint::vartime_multiscalar_mul(gamma_prime_t_s_prime.iter(), H_Vec.iter());
         C_w = C_w - RistrettoPoint::vartime_multiscalar_mul(s_prime.iter(), G_Vec.iter());
         transcript.append_message(b"c_w", C_w.compress().as_bytes());
-- 
2.43.0


From 1287c2912d90f68c1db8cfe4cb3d39bf3c17530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 17/18] fix: copy argument draws one aggregation challenge per
 commitment

---
 src/copy/copy.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 6a50c32..862d4cf 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -1,7 +1,6 @@
 #![allow(non_snake_case)]
 use crate::copy::mapping::{commit, Mapping, MessageMap};
 use crate::ipa::qesa_inner;
-use crate::math_utils::vandemonde_challenge;
 use crate::matrix::*;
 use crate::transcript::TranscriptProtocol;
 use curve25519_dalek::{
@@ -85,8 +84,11 @@ pub fn create(
 
     // 6. Use challenges to adjust the witness value
     //
-    let alpha = transcript.challenge_scalar(b"alpha");
-    let alpha_challenges = vandemonde_challenge(alpha, openings.len());
+    // One challenge per commitment: products of powers of a single one would be powers again, so that
+    // one commitment could offset the difference between a message of another and its value in the witness
+    let alpha_challenges: Vec<Scalar> = (0..openings.len())
+        .map(|_| transcript.challenge_scalar(b"alpha"))
+        .collect();
 
     // 7.Compute aggregated random value
     //
@@ -196,8 +198,9 @@ impl Copy {
 
         // 2. Use challenge to adjust the commitment values
         //
-        let alpha = transcript.challenge_scalar(b"alpha");
-        let alpha_challenges = vandemonde_challenge(alpha, commitments.len());
+        let alpha_challenges: Vec<Scalar> = (0..commitments.len())
+            .map(|_| transcript.challenge_scalar(b"alpha"))
+            .collect();
 
         let mut commitment: RistrettoPoint = alpha_challenges
             .iter()
-- 
2.43.0


From 8e6d3d04cd8885e455284698dd63e064cf627786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 18/18] fix: refuse more commitments than their 16-bit ids can
 number

---
 src/copy/mapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index e7c967b..e285c83 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -66,8 +66,9 @@ pub fn compute_mapping(
     witness_size: usize,
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
-    // Positions and indices are stored as u16
+    // Positions, indices and the ids of commitments are stored as u16
     assert!(n <= u16::max_value() as usize);
+    assert!(sets_of_indices.len() <= u16::max_value() as usize + 1);
     assert!(witness_size <= n);
     let n = n as u16;
 
-- 
2.43.0

