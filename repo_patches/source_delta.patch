From 1fbaf73b053428fbd872610a10ffa9400c8916dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 01/33] fix: one-CPU hosts have one worker, not zero

get_max_workers() returned 0 where num_cpus::get() is 1, and merkelize, fft, interpolate and
calculate_exps divide by it: every proof panicked with 'attempt to divide by zero'.
---
 starky/src/constant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..6c85fa8 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,6 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    // one core is left to the caller, but there is always at least one worker
+    std::cmp::max(num_cpus::get() - 1, 1)
 }
-- 
2.43.0


From 9fe6541754d71bd090400a47b83993e368139227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 02/33] fix: BN128 and BLS12-381 Merkle openings bind the row
 and its index

verify_group_proof hashed up the groups of the path without looking at the opened values or the
index: any values verified at any index against any genuine path, so a proof over these hashes did
not bind the committed trace. The opened node now has to be the index-th entry of its group, and the
row is hashed the way merkelize hashes it.
---
 starky/src/merklehash_bls12381.rs | 18 +++++++++++-------
 starky/src/merklehash_bn128.rs    | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..206b60b 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -112,12 +112,16 @@ impl MerkleTreeBLS12381 {
         idx: usize,
         value: &ElementDigest<4, Fr>,
         offset: usize,
-    ) -> Result<ElementDigest<4, Fr>> {
+    ) -> Result<Option<ElementDigest<4, Fr>>> {
         if mp.len() == offset {
-            return Ok(*value);
+            return Ok(Some(*value));
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
+        // the path holds the whole group: the opened node has to be in it, at its own place
+        if mp[offset][cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            return Ok(None);
+        }
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
@@ -133,9 +137,9 @@ impl MerkleTreeBLS12381 {
         mp: &[Vec<Fr>],
         idx: usize,
         vals: &[FGL],
-    ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+    ) -> Result<Option<ElementDigest<4, Fr>>> {
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
@@ -254,7 +258,7 @@ impl MerkleTree for MerkleTreeBLS12381 {
         group_elements: &[FGL],
     ) -> Result<bool> {
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
-        Ok(self.eq_root(root, &c_root))
+        Ok(c_root.is_some_and(|c_root| self.eq_root(root, &c_root)))
     }
 
     fn root(&self) -> Self::MTNode {
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..272ed2e 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -111,12 +111,16 @@ impl MerkleTreeBN128 {
         idx: usize,
         value: &ElementDigest<4, Fr>,
         offset: usize,
-    ) -> Result<ElementDigest<4, Fr>> {
+    ) -> Result<Option<ElementDigest<4, Fr>>> {
         if mp.len() == offset {
-            return Ok(*value);
+            return Ok(Some(*value));
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
+        // the path holds the whole group: the opened node has to be in it, at its own place
+        if mp[offset][cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            return Ok(None);
+        }
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
@@ -132,9 +136,9 @@ impl MerkleTreeBN128 {
         mp: &[Vec<Fr>],
         idx: usize,
         vals: &[FGL],
-    ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+    ) -> Result<Option<ElementDigest<4, Fr>>> {
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
@@ -250,7 +254,7 @@ impl MerkleTree for MerkleTreeBN128 {
         group_elements: &[FGL],
     ) -> Result<bool> {
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
-        Ok(self.eq_root(root, &c_root))
+        Ok(c_root.is_some_and(|c_root| self.eq_root(root, &c_root)))
     }
 
     fn root(&self) -> Self::MTNode {
-- 
2.43.0


From cfdd00016f10547da3d0bef927e56c51317f13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 03/33] fix: BN128 and BLS12-381 transcripts drop squeezed
 words when something is absorbed

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 0db58c7f6e5a17fb96426231f11388b201618f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 04/33] fix: public values of committed columns may precede
 expression publics

---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..0838f11 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -316,6 +316,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // publics_code is indexed by the public's position
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From 2a131ecc32c76a70b57095bdf14c13a18a125fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 05/33] fix: setup refuses constraints whose degree exceeds the
 extension

---
 starky/src/starkinfo_cp_prover.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starky/src/starkinfo_cp_prover.rs b/starky/src/starkinfo_cp_prover.rs
index 3fdfb6e..2ceda0b 100644
--- a/starky/src/starkinfo_cp_prover.rs
+++ b/starky/src/starkinfo_cp_prover.rs
@@ -4,7 +4,7 @@ use crate::starkinfo_codegen::Section;
 use crate::starkinfo_codegen::{build_code, pil_code_gen, Context, Node};
 use crate::types::Expression;
 use crate::types::{StarkStruct, PIL};
-use anyhow::Result;
+use anyhow::{bail, Result};
 use std::collections::HashMap;
 
 impl StarkInfo {
@@ -35,6 +35,7 @@ impl StarkInfo {
         }
         self.q_deg = 0;
         let max_deg = (1 << (stark_struct.nBitsExt - stark_struct.nBits)) + 1;
+        let mut found = false;
         for d in 2..=max_deg {
             let (im_exps, q_deg) = calculate_im_pols(pil, &c_exp, d)?;
             if im_exps.is_some()
@@ -44,8 +45,12 @@ impl StarkInfo {
             {
                 self.q_deg = q_deg as usize;
                 self.im_exps = im_exps.unwrap();
+                found = true;
             }
         }
+        if !found {
+            bail!("a constraint has a degree higher than {max_deg}, which is the most for this nBitsExt");
+        }
 
         //log::trace!("im_exps: {:?} q_deg {}", self.im_exps, self.q_deg);
 
-- 
2.43.0


From b44879227ae65bfcde3cdf0c53fe37328256bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 06/33] fix: FRI's last layer is checked for its exact degree

---
 starky/src/fri.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..64247d0 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -276,17 +276,13 @@ impl FRI {
 
         let last_pol_e = proof.last.clone();
 
-        #[allow(unused_assignments)]
-        let mut max_deg = 0usize;
-        if pol_bits < (self.in_nbits - self.max_deg_nbits) {
-            max_deg = 0;
-        } else {
-            max_deg = 1 << (pol_bits - (self.in_nbits - self.max_deg_nbits));
-        }
+        // the number of coefficients that a folded polynomial of degree less than 2^max_deg_nbits has
+        let extend_bits = self.in_nbits - self.max_deg_nbits;
+        let n_coefs = if pol_bits < extend_bits { 1 } else { 1 << (pol_bits - extend_bits) };
 
         let last_pol_c = standard_fft.ifft(&last_pol_e);
 
-        for i in (max_deg + 1)..last_pol_c.len() {
+        for i in n_coefs..last_pol_c.len() {
             if !last_pol_c[i].is_zero() {
                 log::error!("check last pol c failed");
                 return Ok(false);
-- 
2.43.0


From 5f50f9192bf33d6fb6f13f89200163108f7e0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 07/33] fix: the verifier checks the shape of a proof

---
 starky/src/merklehash.rs          | 10 +++++++
 starky/src/merklehash_bls12381.rs | 10 +++++++
 starky/src/merklehash_bn128.rs    | 10 +++++++
 starky/src/stark_verify.rs        | 43 +++++++++++++++++++++++++++++++
 starky/src/traits.rs              |  2 ++
 5 files changed, 75 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..27ac70c 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -452,6 +452,16 @@ impl MerkleTree for MerkleTreeGL {
         Ok(self.eq_root(root, &c_root))
     }
 
+    fn is_path(mp: &[Vec<FGL>], height: usize) -> bool {
+        let mut depth = 0;
+        let mut n = height;
+        while n > 1 {
+            n = (n - 1) / 2 + 1;
+            depth += 1;
+        }
+        mp.len() == depth && mp.iter().all(|sibs| sibs.len() == 4)
+    }
+
     fn root(&self) -> Self::MTNode {
         self.nodes[self.nodes.len() - 1]
     }
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 206b60b..f891635 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -261,6 +261,16 @@ impl MerkleTree for MerkleTreeBLS12381 {
         Ok(c_root.is_some_and(|c_root| self.eq_root(root, &c_root)))
     }
 
+    fn is_path(mp: &[Vec<Fr>], height: usize) -> bool {
+        let mut depth = 0;
+        let mut n = height;
+        while n > 1 {
+            n = (n - 1) / 16 + 1;
+            depth += 1;
+        }
+        mp.len() == depth && mp.iter().all(|sibs| sibs.len() == 16)
+    }
+
     fn root(&self) -> Self::MTNode {
         self.nodes[self.nodes.len() - 1]
     }
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 272ed2e..c4de995 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -257,6 +257,16 @@ impl MerkleTree for MerkleTreeBN128 {
         Ok(c_root.is_some_and(|c_root| self.eq_root(root, &c_root)))
     }
 
+    fn is_path(mp: &[Vec<Fr>], height: usize) -> bool {
+        let mut depth = 0;
+        let mut n = height;
+        while n > 1 {
+            n = (n - 1) / 16 + 1;
+            depth += 1;
+        }
+        mp.len() == depth && mp.iter().all(|sibs| sibs.len() == 16)
+    }
+
     fn root(&self) -> Self::MTNode {
         self.nodes[self.nodes.len() - 1]
     }
diff --git a/starky/src/stark_verify.rs b/starky/src/stark_verify.rs
index 172b954..5db9dc2 100644
--- a/starky/src/stark_verify.rs
+++ b/starky/src/stark_verify.rs
@@ -24,6 +24,11 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     stark_struct: &StarkStruct,
     program: &Program,
 ) -> Result<bool> {
+    if !has_shape(proof, starkinfo, stark_struct) {
+        log::error!("the proof has not the shape that the circuit and the parameters give it");
+        return Ok(false);
+    }
+
     let mut transcript = T::new();
 
     let mut ctx = StarkContext::default();
@@ -135,6 +140,44 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     fri.verify(&mut transcript, &proof.fri_proof, check_query)
 }
 
+/// Whether every list of the proof has the length that the circuit and the parameters give it: what
+/// is longer or shorter is not bound by the commitments the way the verifier below assumes.
+fn has_shape<M: MerkleTree>(
+    proof: &StarkProof<M>,
+    starkinfo: &StarkInfo,
+    stark_struct: &StarkStruct,
+) -> bool {
+    let steps = &stark_struct.steps;
+    let widths = &starkinfo.map_sectionsN;
+    if proof.publics.len() != starkinfo.publics.len()
+        || proof.evals.len() != starkinfo.ev_map.len()
+        || proof.fri_proof.queries.len() != steps.len()
+        || proof.fri_proof.last.len() != 1 << steps[steps.len() - 1].nBits
+    {
+        return false;
+    }
+    proof.fri_proof.queries.iter().enumerate().all(|(si, step)| {
+        // the widths of the trees that are opened at this step
+        let opened = match si {
+            0 => vec![
+                widths.cm1_2ns,
+                widths.cm2_2ns,
+                widths.cm3_2ns,
+                widths.cm4_2ns,
+                starkinfo.n_constants,
+            ],
+            _ => vec![3 << (steps[si - 1].nBits - steps[si].nBits)],
+        };
+        step.pol_queries.len() == stark_struct.nQueries
+            && step.pol_queries.iter().all(|query| {
+                query.len() == opened.len()
+                    && query.iter().zip(&opened).all(|((vals, path), width)| {
+                        vals.len() == *width && M::is_path(path, 1 << steps[si].nBits)
+                    })
+            })
+    })
+}
+
 fn execute_code<F: FieldExtension>(ctx: &StarkContext<F>, code: &Vec<Section>) -> F {
     let mut tmp: HashMap<usize, F> = HashMap::new();
 
diff --git a/starky/src/traits.rs b/starky/src/traits.rs
index 027136a..3c1493c 100644
--- a/starky/src/traits.rs
+++ b/starky/src/traits.rs
@@ -49,6 +49,8 @@ where
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool>;
+    /// Whether `mp` has the shape of an authentication path in a tree with `height` leaves.
+    fn is_path(mp: &[Vec<Self::BaseField>], height: usize) -> bool;
     fn root(&self) -> Self::MTNode;
     fn eq_root(&self, r1: &Self::MTNode, r2: &Self::MTNode) -> bool;
     fn element_size(&self) -> usize;
-- 
2.43.0


From c2affe3eee20c0f8ce3c5a7d4ff115d14e728020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 08/33] fix: trace files: read whole chunks on short reads,
 write only the values at the end of a large file

---
 starky/src/polsarray.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..213942d 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -150,22 +150,15 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            f.read_exact(&mut buff8[..(n * 8)])?;
+            log::trace!("n = {}, k = {}, totalSize = {}", n, k, totalSize);
             let buff: &[u64] = unsafe {
                 std::slice::from_raw_parts(
                     buff8.as_ptr() as *const u64,
                     buff8.len() / std::mem::size_of::<u64>(),
                 )
             };
-            n = rs / 8;
 
             for l in 0..n {
                 self.array[i][j] = FGL::from(buff[l]);
@@ -208,7 +201,7 @@ impl PolsArray {
             let buff8: &[u8] = unsafe {
                 std::slice::from_raw_parts(
                     buff.as_ptr() as *const u8,
-                    buff.len() * std::mem::size_of::<u64>(),
+                    p * std::mem::size_of::<u64>(),
                 )
             };
             writer.write_all(buff8)?;
-- 
2.43.0


From b1f67f75cdd089c2ba4b4a3b198c446929fb05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 09/33] fix: r1cs: refuse other primes, unknown wires, too many
 public wires and unterminated gate names

---
 algebraic-gpu/src/r1cs_file.rs | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..2fd4289 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -80,10 +80,11 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
     let mut vec = Vec::with_capacity(n_vec);
     for _ in 0..n_vec {
-        vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
-            read_field::<&mut R, E>(&mut reader)?,
-        ));
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= header.n_wires {
+            return Err(Error::new(ErrorKind::InvalidData, "Invalid wire index"));
+        }
+        vec.push((wire as usize, read_field::<&mut R, E>(&mut reader)?));
         // sort by key
         vec.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
     }
@@ -121,19 +122,16 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     Ok(vec)
 }
 
-// TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
-    let mut name_buf = vec![1u8; 1];
+// a template's name ends with a zero byte
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
-        if name_buf[0] != 0 {
-            buf.push(name_buf[0]);
-        } else {
-            break;
+        match reader.read_u8()? {
+            0 => break,
+            c => buf.push(c),
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -145,7 +143,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -241,6 +239,15 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    // the supported primes are odd: only the lowest byte differs in -1
+    let mut minus_one = header.prime_size.clone();
+    minus_one[0] -= 1;
+    if (-E::ONE).to_repr().as_ref() != &minus_one[..] {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(ErrorKind::InvalidData, "More public wires than wires"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-- 
2.43.0


From 12463ff89de8cdfdb82a8333d94cc837e726f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 10/33] fix: witness files: refuse truncated and non-canonical
 values instead of leaving them out

---
 algebraic-gpu/src/reader.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..10cfa45 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -105,14 +105,12 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid witness value");
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
-- 
2.43.0


From e49a81ae0802fa211dfa8a86bd3821116ed516d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 11/33] fix: witness calculator: report circuit exceptions and
 missing inputs, reduce inputs, flush the saved witness

---
 algebraic-gpu/src/witness/circom.rs             |  8 ++++++++
 algebraic-gpu/src/witness/witness_calculator.rs | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/witness/circom.rs b/algebraic-gpu/src/witness/circom.rs
index 46c70b6..387c00f 100644
--- a/algebraic-gpu/src/witness/circom.rs
+++ b/algebraic-gpu/src/witness/circom.rs
@@ -114,6 +114,14 @@ impl Wasm {
         }
     }
 
+    // Number of input values the circuit takes, if it says so
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_u32(&self, store: &mut Store, name: &str) -> Result<u32> {
         let func = self.func(name);
         let result = func.call(store, &[])?;
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..fc044c8 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -153,10 +153,13 @@ impl WitnessCalculator {
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
 
         // allocate the inputs
+        let mut n_inputs = 0;
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
+                // negative or too large inputs stand for their residue
+                let value = ((value % &self.memory.prime) + &self.memory.prime) % &self.memory.prime;
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
@@ -166,6 +169,12 @@ impl WitnessCalculator {
                     )?;
                 }
                 self.instance.set_input_signal(&mut self.store, msb, lsb, i as u32)?;
+                n_inputs += 1;
+            }
+        }
+        if let Some(size) = self.instance.get_input_size(&mut self.store)? {
+            if n_inputs < size {
+                bail!("Not all inputs have been set: {n_inputs} out of {size}");
             }
         }
 
@@ -242,6 +251,7 @@ impl WitnessCalculator {
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -314,8 +324,10 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        // the program goes on after an exception, with whatever it has: stop it here
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circuit exception, code {code}")))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From c82f4f7ab10922174741368895c7b1ecf4b15542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 12/33] fix: gnark documents: refuse invalid points and short
 point lists without a panic, write the G2 identity

---
 recursion-gnark/ffi/src/traits.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..bafbf31 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -219,8 +219,14 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
+                let Some((x, y)) = p.xy() else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    return x_seq.end();
+                };
                 x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
                 x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
                 x_seq.serialize_element(&vec!["1", "0"])?;
@@ -486,8 +492,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
@@ -548,7 +554,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G1Affine>> {
         let mut buf = vec![0u8; Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g1_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
@@ -561,7 +567,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G2Affine>> {
         let mut buf = vec![0u8; Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g2_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
-- 
2.43.0


From 0e71fa9b5d43063a923bd8c6cb637ecd9ef35f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 13/33] fix: groth16: refuse points off the curve or outside
 the group

---
 groth16/src/json_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/groth16/src/json_utils.rs b/groth16/src/json_utils.rs
index 60d1538..f089c7a 100644
--- a/groth16/src/json_utils.rs
+++ b/groth16/src/json_utils.rs
@@ -272,13 +272,17 @@ impl Parser for Bls12 {
     }
 
     fn to_g1(x: &str, y: &str) -> Self::G1Affine {
-        G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false)
+        let p = G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false);
+        assert!(bool::from(p.is_on_curve() & p.is_torsion_free()), "Invalid G1 point");
+        p
     }
 
     fn to_g2(x0: &str, x1: &str, y0: &str, y1: &str) -> Self::G2Affine {
         let x = Fp2::new(render_str_to_fp(x0), render_str_to_fp(x1));
         let y = Fp2::new(render_str_to_fp(y0), render_str_to_fp(y1));
-        G2Affine::from_raw_unchecked(x, y, false)
+        let p = G2Affine::from_raw_unchecked(x, y, false);
+        assert!(bool::from(p.is_on_curve() & p.is_torsion_free()), "Invalid G2 point");
+        p
     }
 }
 
-- 
2.43.0


From 0638584c6240efacfe08d73f502f2cc171bdbcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 14/33] fix: r1cs2plonk: a constant factor times B is C, not
 minus C

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..85f0e81 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -56,6 +56,7 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
         lc.retain(|_, v| *v != FGL::ZERO);
     };
 
+    // k * lc1 - lc2
     let join =
         |lc1: &BTreeMap<usize, FGL>, k: &FGL, lc2: &BTreeMap<usize, FGL>| -> BTreeMap<usize, FGL> {
             let mut res: BTreeMap<usize, FGL> = BTreeMap::new();
@@ -70,10 +71,10 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
 
             for (key, val) in lc2.iter() {
                 if !res.contains_key(key) {
-                    res.insert(*key, *val);
+                    res.insert(*key, val.neg());
                 } else {
                     let tmp = res[key];
-                    res.insert(*key, *val + tmp);
+                    res.insert(*key, tmp - *val);
                 }
             }
             normalize(&mut res);
-- 
2.43.0


From ef9883f2069ff21b52288db87a34bb7170b6e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 15/33] fix: compressor12: outputs are public once, and there
 may be no public wires

---
 recursion/src/compressor12/plonk_setup.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..ac03a01 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -180,8 +180,9 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        // num_inputs counts the constant one and the outputs, too
+        let n_publics = r1cs.num_inputs - 1;
+        let n_public_rows = n_publics.div_ceil(12);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -218,7 +219,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = n_publics.div_ceil(12);
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From 58dcf519232cbe1a6a2ccb5b465819ec12186500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 16/33] fix: compressor12: gate 0 is no gate of a kind the
 circuit does not declare

---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index ac03a01..b7e52aa 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -80,10 +80,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -100,24 +100,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -132,13 +132,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -385,7 +385,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -430,7 +430,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -591,7 +591,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From a64cc1c7a96b1b46a1c21c55fdff846fcbfa2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 17/33] fix: compressor12: count the rows the constraints take
 as they are packed

---
 recursion/src/compressor12/plonk_setup.rs | 41 ++++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index b7e52aa..afdf1bf 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,21 +53,33 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // The rows plonk_setup_compressor puts the constraints in: the first two of a kind open a
+        // row, and two of any other kind share it.
+        let mut partial_rows: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
+        let mut N = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
                 log::trace!("Plonk info constraint processing... {i}/{plonk_constrains_len}");
             }
             let k = c.str_key();
-
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            if let Some(n_used) = partial_rows.get_mut(&k) {
+                *n_used += 1;
+                if *n_used == 2 {
+                    half_rows += 1;
+                    partial_rows.remove(&k);
+                } else if *n_used == 4 {
+                    partial_rows.remove(&k);
+                }
+            } else if half_rows > 0 {
+                half_rows -= 1;
+                partial_rows.insert(k, 3);
+            } else {
+                N += 1;
+                partial_rows.insert(k, 1);
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
 
         Self {
             N,
@@ -192,8 +204,13 @@ impl PlonkSetupRenderInfo {
                 + custom_gates_info.n_fft * 2
                 + custom_gates_info.n_ev_pol * 2) as usize;
 
-        let mut n_bits = helper::log2_any(n_used - 1) + 1;
+        let mut n_bits = helper::log2_any(n_used.max(1) - 1) + 1;
         if opts.force_bits > 0 {
+            assert!(
+                n_used <= 1 << opts.force_bits,
+                "{n_used} rows do not fit in 2^{}",
+                opts.force_bits
+            );
             n_bits = opts.force_bits;
         }
 
@@ -431,10 +448,8 @@ pub fn plonk_setup_compressor(
             }
             r += 31;
         } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
-            if r < n_used {
-                for (j, map) in s_map.iter_mut().enumerate().take(12) {
-                    map[r] = cgu.signals[j];
-                }
+            for (j, map) in s_map.iter_mut().enumerate().take(12) {
+                map[r] = cgu.signals[j];
             }
             let index = r;
             for pol_name in [GATE, POSEIDON12, PARTIAL, EVPOL4, FFT4] {
-- 
2.43.0


From b62d5d7d3e020eeddaeab62d3c3aeb1c454062d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 18/33] fix: r1cs file of the bellman-based crate: refuse
 another prime, missing wires and an endless template name

---
 algebraic/src/r1cs_file.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..c02c18a 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -75,10 +75,11 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
     let mut vec = Vec::with_capacity(n_vec);
     for _ in 0..n_vec {
-        vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
-            read_field::<&mut R, E>(&mut reader)?,
-        ));
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= header.n_wires {
+            return Err(Error::new(ErrorKind::InvalidData, "Invalid wire index"));
+        }
+        vec.push((wire as usize, read_field::<&mut R, E>(&mut reader)?));
         // sort by key
         vec.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
     }
@@ -116,19 +117,16 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     Ok(vec)
 }
 
-// TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
-    let mut name_buf = vec![1u8; 1];
+// a template's name ends with a zero byte
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
-        if name_buf[0] != 0 {
-            buf.push(name_buf[0]);
-        } else {
-            break;
+        match reader.read_u8()? {
+            0 => break,
+            c => buf.push(c),
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
@@ -140,7 +138,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -236,6 +234,14 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    let mut prime = vec![];
+    E::Fr::char().write_le(&mut prime)?;
+    if prime != header.prime_size {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(ErrorKind::InvalidData, "More public wires than wires"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-- 
2.43.0


From c867a024dd7749fb2558943f7e4dee964836b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 19/33] fix: witness calculator of the bellman-based crate:
 report circuit exceptions and missing inputs, reduce inputs, flush the saved
 witness

---
 algebraic/src/witness/circom.rs             |  8 ++++++++
 algebraic/src/witness/witness_calculator.rs | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/algebraic/src/witness/circom.rs b/algebraic/src/witness/circom.rs
index 46c70b6..387c00f 100644
--- a/algebraic/src/witness/circom.rs
+++ b/algebraic/src/witness/circom.rs
@@ -114,6 +114,14 @@ impl Wasm {
         }
     }
 
+    // Number of input values the circuit takes, if it says so
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_u32(&self, store: &mut Store, name: &str) -> Result<u32> {
         let func = self.func(name);
         let result = func.call(store, &[])?;
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..3077a84 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -153,10 +153,13 @@ impl WitnessCalculator {
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
 
         // allocate the inputs
+        let mut n_inputs = 0;
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
+                // negative or too large inputs stand for their residue
+                let value = ((value % &self.memory.prime) + &self.memory.prime) % &self.memory.prime;
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
@@ -166,6 +169,12 @@ impl WitnessCalculator {
                     )?;
                 }
                 self.instance.set_input_signal(&mut self.store, msb, lsb, i as u32)?;
+                n_inputs += 1;
+            }
+        }
+        if let Some(size) = self.instance.get_input_size(&mut self.store)? {
+            if n_inputs < size {
+                bail!("Not all inputs have been set: {n_inputs} out of {size}");
             }
         }
 
@@ -242,6 +251,7 @@ impl WitnessCalculator {
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -314,8 +324,10 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        // the program goes on after an exception, with whatever it has: stop it here
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circuit exception, code {code}")))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From 2ae5208791d5f19921e51138a00fca41273e2309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 20/33] fix: digests of BN128 and BLS12-381 whose limbs are not
 below the Goldilocks modulus

---
 starky/src/digest.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/starky/src/digest.rs b/starky/src/digest.rs
index a4a4ea7..481ac06 100644
--- a/starky/src/digest.rs
+++ b/starky/src/digest.rs
@@ -6,6 +6,8 @@ use crate::helper;
 use crate::traits::MTNodeType;
 use ff::*;
 use fields::field_gl::Fr as FGL;
+use fields::field_gl::FrRepr as FrRepr_GL;
+use fields::field_gl::MODULUS as MODULUS_GL;
 use serde::de::{SeqAccess, Visitor};
 use serde::ser::SerializeSeq;
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
@@ -42,13 +44,16 @@ impl<const N: usize, F: PrimeField + Default> MTNodeType for ElementDigest<N, F>
         &self.0
     }
 
+    /// The limbs of a scalar are any 64-bit words. The few that are not below the Goldilocks
+    /// modulus have no canonical element, so these are kept as they are.
     #[inline(always)]
     fn from_scalar<T: PrimeField>(e: &T) -> Self {
         let mut result = [FGL::ZERO; N];
         let ee = e.into_raw_repr();
         let eee = ee.as_ref();
         for i in 0..N {
-            result[i] = FGL::from(eee[i]);
+            let limb = FrRepr_GL::from(eee[i]);
+            result[i] = FGL::from_repr(limb).unwrap_or(FGL(limb));
         }
         ElementDigest::new(&result)
     }
@@ -59,7 +64,8 @@ impl<const N: usize, F: PrimeField + Default> MTNodeType for ElementDigest<N, F>
         let mut y = T::Repr::default();
         let t = y.as_mut();
         for (i, ti) in t.iter_mut().enumerate().take(N) {
-            *ti = self.0[i].as_int();
+            let raw = self.0[i].into_raw_repr();
+            *ti = if raw < MODULUS_GL { self.0[i].as_int() } else { raw.0[0] };
         }
         y
     }
-- 
2.43.0


From 7bf579bca6e774ded7ff2bca2bee82ff7b36c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 21/33] fix: Goldilocks integers have one limb to count bits of

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From a02c4bf668c6fc37ff626600f43e47dfc2820661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 22/33] fix: quintic extension: order and negation

---
 starky/src/f5g.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
@@ -488,9 +484,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From 20d2b8053a44ae8ba31a0e68bf31d3b6110ff92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 23/33] fix: extension fields: reduce bytes and negative
 integers

---
 starky/src/f3g.rs | 9 +++++----
 starky/src/f5g.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/starky/src/f3g.rs b/starky/src/f3g.rs
index 2f896ec..2c4f58a 100644
--- a/starky/src/f3g.rs
+++ b/starky/src/f3g.rs
@@ -1,7 +1,7 @@
 #![allow(dead_code)]
 use crate::traits::FieldExtension;
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
-use fields::field_gl::Fr;
+use fields::field_gl::{Fr, MODULUS};
 use fields::Field;
 use std::hash::{Hash, Hasher};
 use std::slice;
@@ -502,7 +502,8 @@ impl From<u64> for F3G {
 impl From<i32> for F3G {
     #[inline]
     fn from(value: i32) -> Self {
-        Self::from(Fr::from(value as u64))
+        let abs = Fr::from(value.unsigned_abs() as u64);
+        Self::from(if value < 0 { -abs } else { abs })
     }
 }
 
@@ -523,7 +524,7 @@ impl From<usize> for F3G {
 impl From<&i32> for F3G {
     #[inline]
     fn from(value: &i32) -> Self {
-        Self::from(Fr::from(*value as u64))
+        Self::from(*value)
     }
 }
 
@@ -558,7 +559,7 @@ impl From<[u8; 8]> for F3G {
     #[inline]
     fn from(bytes: [u8; 8]) -> Self {
         let value = u64::from_le_bytes(bytes);
-        Self::from(value)
+        Self::from(value % MODULUS.0[0])
     }
 }
 
diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index c631731..4a9fdab 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -1,7 +1,7 @@
 #![allow(dead_code)]
 use crate::traits::FieldExtension;
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
-use fields::field_gl::Fr;
+use fields::field_gl::{Fr, MODULUS};
 use fields::Field;
 use std::hash::{Hash, Hasher};
 use std::slice;
@@ -513,7 +513,8 @@ impl From<u64> for F5G {
 impl From<i32> for F5G {
     #[inline]
     fn from(value: i32) -> Self {
-        Self::from(Fr::from(value as u64))
+        let abs = Fr::from(value.unsigned_abs() as u64);
+        Self::from(if value < 0 { -abs } else { abs })
     }
 }
 
@@ -534,7 +535,7 @@ impl From<usize> for F5G {
 impl From<&i32> for F5G {
     #[inline]
     fn from(value: &i32) -> Self {
-        Self::from(Fr::from(*value as u64))
+        Self::from(*value)
     }
 }
 
@@ -569,7 +570,7 @@ impl From<[u8; 8]> for F5G {
     #[inline]
     fn from(bytes: [u8; 8]) -> Self {
         let value = u64::from_le_bytes(bytes);
-        Self::from(value)
+        Self::from(value % MODULUS.0[0])
     }
 }
 
-- 
2.43.0


From 326aff6be49abffff226422bf5341c742e845302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 24/33] fix: verifier circuit over Goldilocks: hand the
 openings of stages 2 and 3 to the verifier exactly when they exist

---
 starky/src/stark_verifier_circom.rs | 32 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0f7573c..e8f99de 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -802,6 +802,22 @@ template MapValues() {{
     res
 }
 
+/// Hands the openings of the optional stages 2 and 3 to the verifier `v`.
+fn wire_stages(starkinfo: &StarkInfo, v: &str, prefix: &str) -> String {
+    let mut res = String::new();
+    for (stage, section) in [(2, "cm2_2ns"), (3, "cm3_2ns")] {
+        if starkinfo.map_sectionsN.get(section) > 0 {
+            res.push_str(&format!(
+                r#"
+    {v}.s0_vals{stage} <== {prefix}s0_vals{stage};
+    {v}.s0_siblings{stage} <== {prefix}s0_siblings{stage};
+            "#
+            ));
+        }
+    }
+    res
+}
+
 #[time_profiler()]
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
@@ -1630,11 +1646,9 @@ template Main() {{
     vA.root4 <== root4;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
@@ -1642,6 +1656,8 @@ template Main() {{
             "#,
         );
 
+        res.push_str(&wire_stages(starkinfo, "vA", ""));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
@@ -1791,11 +1807,9 @@ template Main() {{
     vA.rootC <== rootC;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
@@ -1803,6 +1817,8 @@ template Main() {{
             "#,
         );
 
+        res.push_str(&wire_stages(starkinfo, "vA", ""));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
@@ -2030,11 +2046,9 @@ template Main() {{
     vA.rootC <== a_rootC;
     vA.evals <== a_evals;
     vA.s0_vals1 <== a_s0_vals1;
-    vA.s0_vals3 <== a_s0_vals3;
     vA.s0_vals4 <== a_s0_vals4;
     vA.s0_valsC <== a_s0_valsC;
     vA.s0_siblings1 <== a_s0_siblings1;
-    vA.s0_siblings3 <== a_s0_siblings3;
     vA.s0_siblings4 <== a_s0_siblings4;
     vA.s0_siblingsC <== a_s0_siblingsC;
 
@@ -2046,6 +2060,8 @@ template Main() {{
         // isOneBatchA.in  <== a_publics[43] - a_publics[16] - 1; a_publics[43]-> newBatchNum;  a_publics[16]-> oldBatchNum
         // TODO: "vA.rootC <== rootCSingle;" this need to change!!!
 
+        res.push_str(&wire_stages(starkinfo, "vA", "a_"));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
@@ -2070,11 +2086,9 @@ template Main() {{
     vB.rootC <== b_rootC;
     vB.evals <== b_evals;
     vB.s0_vals1 <== b_s0_vals1;
-    vB.s0_vals3 <== b_s0_vals3;
     vB.s0_vals4 <== b_s0_vals4;
     vB.s0_valsC <== b_s0_valsC;
     vB.s0_siblings1 <== b_s0_siblings1;
-    vB.s0_siblings3 <== b_s0_siblings3;
     vB.s0_siblings4 <== b_s0_siblings4;
     vB.s0_siblingsC <== b_s0_siblingsC;
 
@@ -2083,6 +2097,8 @@ template Main() {{
             pil.publics.len()
         ));
 
+        res.push_str(&wire_stages(starkinfo, "vB", "b_"));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
-- 
2.43.0


From 142fc0a9f43f84d0691d26008368cca8a64f5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 25/33] fix: verifier circuit over Goldilocks: check roots and
 the first layer once per query, also when there is no folding step

---
 starky/src/stark_verifier_circom.rs | 58 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index e8f99de..ba8c7fb 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1298,6 +1298,35 @@ template StarkVerifier() {{
         "#,
     );
 
+    //// Checks
+    let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
+        "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
+    } else {
+        ""
+    };
+    let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
+        "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
+    } else {
+        ""
+    };
+    res.push_str(&format!(
+        r#"
+    for (var q=0; q<{}; q++) {{
+        for (var j=0; j<4; j++) {{
+            enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
+            {}
+            {}
+            enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
+            enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
+        }}
+        for (var e=0; e<3; e++) {{
+            enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
+        }}
+    }}
+        "#,
+        stark_struct.nQueries, enable2, enable3
+    ));
+
     for s in 1..stark_struct.steps.len() {
         res.push_str(&format!(
             r#"
@@ -1438,35 +1467,6 @@ template StarkVerifier() {{
             ));
         }
 
-        //// Checks
-        let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
-            "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
-        } else {
-            ""
-        };
-        let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
-            "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
-        } else {
-            ""
-        };
-        res.push_str(&format!(
-            r#"
-        for(var q = 0; q < {}; q ++) {{
-            for(var j = 0; j < 4; j ++) {{
-                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
-                {}
-                {}
-                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
-                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
-            }}
-            for (var e = 0; e < 3; e ++) {{
-                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
-            }}
-        }}
-        "#,
-            stark_struct.nQueries, enable2, enable3
-        ));
-
         res.push_str(&format!(
             r#"
         for (var e=0; e<3; e++) {{
-- 
2.43.0


From 3c022c6765c3ffaa4fe2f4bd7ea8578883c5775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 26/33] fix: verifier circuits: a last layer smaller than the
 blow-up factor must be constant

---
 starky/src/stark_verifier_circom.rs         | 2 +-
 starky/src/stark_verifier_circom_onchain.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index ba8c7fb..3b733aa 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1487,7 +1487,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index b712e30..e7a4325 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1559,7 +1559,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
-- 
2.43.0


From d692de3a3954f3456507fc03c429eb792d68d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:01 +0000
Subject: [PATCH 27/33] fix: on-chain verifier circuit: folding down to a layer
 of two elements

---
 starky/src/stark_verifier_circom_onchain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index e7a4325..8e46eef 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1399,7 +1399,7 @@ template StarkVerifier() {{
             stark_struct.steps[s - 1].nBits
         ));
 
-        if stark_struct.steps[0].nBits > 1 {
+        if stark_struct.steps[s].nBits > 1 {
             res.push_str(&format!(
                 r#"
         s{}_X[q] <== s{}_sx[q][{}].out;
@@ -1411,13 +1411,12 @@ template StarkVerifier() {{
         } else {
             res.push_str(&format!(
                 r#"
-        s{}_X[q] <== {} *  ( ys[q][0] * {} +1);
+        s{}_X[q] <== ys[q][0] * ({} - {}) + {};
         "#,
                 s,
-                (F3G::from(*SHIFT)
-                    .exp(1 << (stark_struct.nBitsExt - stark_struct.steps[s - 1].nBits)))
-                .inv(),
-                F3G::from(MG.0[stark_struct.steps[s - 1].nBits]) - F3G::ONE
+                e1.as_int(),
+                e0.as_int(),
+                e0.as_int()
             ));
         }
 
-- 
2.43.0


From c95063fd715c59591b2644854cf1aad47ad47f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 28/33] fix: BN128 and BLS12-381 linear hash: four elements do
 not fit into one field element

---
 starky/src/linearhash_bls12381.rs | 2 +-
 starky/src/linearhash_bn128.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..aaac5ef 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,7 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..8cc56d0 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,7 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From bd03eda4eaeac072b5bf59dc8e92ae212366e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 29/33] fix: aggregation circuit: tie its public inputs to the
 first proof

---
 starky/src/stark_verifier_circom.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 3b733aa..a8c4792 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -2033,6 +2033,14 @@ template Main() {{
 
         res.push_str(&format!(
             r#"
+    // the aggregate speaks for the statement and the key of the first proof, see zkin_join
+    for (var i=0; i<{}; i++) {{
+        publics[i] === a_publics[i];
+    }}
+    for (var i=0; i<4; i++) {{
+        rootC[i] === a_rootC[i];
+    }}
+
     component vA = StarkVerifier();
 
     for (var i=0; i<{}; i++) {{
@@ -2054,6 +2062,7 @@ template Main() {{
 
     vA.finalPol <== a_finalPol;
             "#,
+            pil.publics.len() - 4,
             pil.publics.len()
         ));
         // component isOneBatchA = IsZero();
-- 
2.43.0


From 2d17e08cc089b5e1e32054c19cc9bd6efae1a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 30/33] fix: Solidity verifier: decimal G2 coordinates get the
 struct's type whatever their size

---
 groth16/src/api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groth16/src/api.rs b/groth16/src/api.rs
index f38f7c5..8778cba 100644
--- a/groth16/src/api.rs
+++ b/groth16/src/api.rs
@@ -470,6 +470,10 @@ pub fn generate_verifier(vk_file_path: &str, sol_file_path: &str) -> Result<()>
     let re = Regex::new(r"(?P<v>0[xX][0-9a-fA-F]{64})").unwrap();
     template_text = re.replace_all(&template_text, "uint256($v)").to_string();
 
+    // two decimals below 2^248 would make an array of a smaller type than the struct's
+    let re = Regex::new(r"\[(?P<v>[0-9]+), ").unwrap();
+    template_text = re.replace_all(&template_text, "[uint256($v), ").to_string();
+
     match std::fs::write(
         sol_file_path,
         format!("{solidity_pairing_lib_sans_bn256g2}{template_text}"),
-- 
2.43.0


From f4c6af96bb13eb15756d7712fb84107f1bda04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:55 +0000
Subject: [PATCH 31/33] fix: linear hash circuit: its inputs have 64 bits,
 since three of them share a field element

---
 stark-circuits/circuits/linearhash.circom | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stark-circuits/circuits/linearhash.circom b/stark-circuits/circuits/linearhash.circom
index a51390a..ace00f8 100644
--- a/stark-circuits/circuits/linearhash.circom
+++ b/stark-circuits/circuits/linearhash.circom
@@ -1,11 +1,22 @@
 pragma circom 2.0.6;
 
 include "poseidon.circom";
+include "bitify.circom";
 
 template LinearHash(nInputs, eSize) {
     signal input in[nInputs][eSize];
     signal output out;
 
+    // Three inputs are packed into one field element: beyond 64 bits they would overlap,
+    // and different inputs would have the same hash.
+    component n2bIn[nInputs][eSize];
+    for (var i=0; i<nInputs; i++) {
+        for (var j=0; j<eSize; j++) {
+            n2bIn[i][j] = Num2Bits(64);
+            n2bIn[i][j].in <== in[i][j];
+        }
+    }
+
     var nElements256 = (nInputs*eSize - 1)\3 +1;
 
     var sAc = 0;
-- 
2.43.0


From bae10f286b1e3b5d4d04b806f02d78512463a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 32/33] fix: BLS12-381 verifier circuit: a challenge has one
 decomposition into bits

---
 stark-circuits/circuits/bn1togl3.circom     | 25 ++++++++++++++++++++-
 starky/src/stark_verifier_circom_onchain.rs |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/stark-circuits/circuits/bn1togl3.circom b/stark-circuits/circuits/bn1togl3.circom
index e3d1980..30fbd1e 100644
--- a/stark-circuits/circuits/bn1togl3.circom
+++ b/stark-circuits/circuits/bn1togl3.circom
@@ -3,11 +3,34 @@ pragma circom 2.0.6;
 
 include "bitify.circom";
 
+// The 255 bits of a number below the order of the field. Numbers below 2^255 minus the order have
+// a second decomposition, which is excluded: at the ones of the largest element, eq tells whether the
+// bits have been the same so far, and where they have been, its zeros are zeros.
+template Num2Bits255_strict() {
+    signal input in;
+    signal output out[255];
+
+    component n2b = Num2Bits(255);
+    signal eq[256];
+
+    n2b.in <== in;
+    eq[255] <== 1;
+    for (var i=254; i>=0; i--) {
+        out[i] <== n2b.out[i];
+        if (((-1 >> i) & 1) == 1) {
+            eq[i] <== eq[i+1] * n2b.out[i];
+        } else {
+            eq[i] <== eq[i+1];
+            eq[i+1] * n2b.out[i] === 0;
+        }
+    }
+}
+
 template BN1toGL3() {
     signal input in;
     signal output out[3];
 
-    component n2b = Num2Bits(255);
+    component n2b = Num2Bits255_strict();
 
     n2b.in <== in;
 
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index 8e46eef..4459b8f 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -152,7 +152,7 @@ impl Transcript {
         let mut n2b: Vec<String> = vec![];
         let n2bt = match self.stark_struct.verificationHashType.as_str() {
             "BN128" => "Num2Bits_strict()".to_string(),
-            "BLS12381" => "Num2Bits(255)".to_string(),
+            "BLS12381" => "Num2Bits255_strict()".to_string(),
             _ => todo!(),
         };
         for i in 0..NFields {
-- 
2.43.0


From e939f314013b62d10c296590f9065fc7c05a49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:31 +0000
Subject: [PATCH 33/33] fix: BLS12-381 verifier circuit: products and sums of
 base field values are circom

The product was written with a template that does not exist and an assignment that is not
circom, the sum indexed its scalars, and one of the multiply-and-add forms lacked a bracket:
no circuit for a system whose constraints multiply or add two numbers or public values.
---
 starky/src/stark_verifier_circom_onchain.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index 4459b8f..368076f 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -216,7 +216,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {}[0] + {}[0];"#,
+    signal {} <== {} + {};"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -306,7 +306,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} = GLCMul1()({}, {});"#,
+    signal {} <== GLMul()({}, {});"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -372,7 +372,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                     } else {
                         str_code.push_str(&format!(
                             r#"
-    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]);"#,
+    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]];"#,
                             ref_(&inst.dest),
                             ref_(&inst.src[0]),
                             ref_(&inst.src[1]),
-- 
2.43.0

