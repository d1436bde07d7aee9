From 7ac045aaf7eface1050151ce433387ead4abec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 01/46] fix: F5G negation and ordering predicates

neg() matched a dimension F5G never has and panicked on every quintic element,
lt() called itself (infinite recursion whenever self > rhs, and true for equal
operands), and gt() required the upper coefficients to be equal before it would
compare the first one.
---
 starky/src/f5g.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
@@ -488,9 +484,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From cfcf7d9053cd035413dd9d745b4f2cd2c467e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 02/46] fix: FrRepr::num_bits counts one limb

The Goldilocks representation has a single 64-bit limb; starting from two limbs
made num_bits() 64 too large for every value.
---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From 373a0fc83e0a68d5095494fb51bf698d9d7c2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 03/46] fix: refuse non-canonical representations when
 deserializing a Goldilocks element

The derived Deserialize accepted any u64, so an element could hold a value >= p
that is unequal to, hashes and orders differently from the element it aliases.
---
 fields/src/field_gl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index cf653d8..ffe2ce3 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -5,9 +5,17 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use serde::{Deserialize, Serialize};
 use std::cmp::Ordering;
 
-#[derive(Eq, Serialize, Deserialize)]
+#[derive(Eq, Serialize)]
 pub struct Fr(pub FrRepr);
 
+impl<'de> Deserialize<'de> for Fr {
+    /// Refuses representations that are not below the modulus.
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let repr = FrRepr::deserialize(deserializer)?;
+        Fr::from_raw_repr(repr).map_err(serde::de::Error::custom)
+    }
+}
+
 /// This is the modulus m of the prime field
 pub const MODULUS: FrRepr = FrRepr([18446744069414584321u64]);
 /// The number of bits needed to represent the modulus.
-- 
2.43.0


From 39300095eb1f01680b5f82c20b5f06387d1dfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 04/46] fix: bind the leaf and the index of BN254 and BLS12-381
 Merkle openings to the path

---
 starky/src/merklehash_bls12381.rs | 6 +++++-
 starky/src/merklehash_bn128.rs    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..60e8f6b 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,16 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the path lists all the children of a node, so it has to contain the opened one
+        if vals[cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            bail!("MerkleTreeError: the path doesn't match the opened node");
+        }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..e6c88f2 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,16 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the path lists all the children of a node, so it has to contain the opened one
+        if vals[cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            bail!("MerkleTreeError: the path doesn't match the opened node");
+        }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
-- 
2.43.0


From 53f798582dfe3c2a3a4a1f7ab676b9e9cf56846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 05/46] fix: hash 4-element rows of the BN254/BLS12-381 linear
 hashes like the matrix form, without aliasing

---
 starky/src/linearhash_bls12381.rs | 2 +-
 starky/src/linearhash_bn128.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..aaac5ef 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,7 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..8cc56d0 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,7 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From 0b5d7107a6e8d77f5ecfc54c0063ae4e7a238252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 06/46] fix: the root of a one-row Merkle tree is the hash of
 its row

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..7b26b8c 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -45,6 +45,10 @@ pub struct MerkleTreeGL {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ <= 1 {
+        // the only node, the hash of the row, is the root
+        return n_;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 60e8f6b..5ecf01f 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ <= 1 {
+        // the only node, the hash of the row, is the root
+        return n_;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index e6c88f2..f72bbdc 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    if n_ <= 1 {
+        // the only node, the hash of the row, is the root
+        return n_;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From 38531918fba86edaae42b6da3a9d2c8f6b30485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 07/46] fix: use one worker on a single-CPU machine instead of
 dividing by zero

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..9869fec 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    std::cmp::max(num_cpus::get() - 1, 1)
 }
-- 
2.43.0


From b5624d24c6f75b5316b7eeed901fb40b3da16b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 08/46] fix: absorbing discards the unread limbs of
 BN254/BLS12-381 transcripts

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From ee8058a0416f7f3d773e266eb27a33e3a0486934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 09/46] fix: refuse R1CS files that end early instead of
 looping, over-allocating or accepting them

---
 algebraic-gpu/src/r1cs_file.rs | 23 +++++++++++++++--------
 algebraic/src/r1cs_file.rs     | 23 +++++++++++++++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..1014a2d 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -54,11 +54,11 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -78,7 +78,7 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -96,7 +96,7 @@ fn read_constraints<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -122,18 +122,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -145,7 +145,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -202,6 +202,10 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
 
     let num_sections = reader.read_u32::<LittleEndian>()?;
 
+    let sections_start = reader.stream_position()?;
+    let file_end = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(sections_start))?;
+
     // section type -> file offset
     let mut section_offsets = BTreeMap::<u32, u64>::new();
     let mut section_sizes = BTreeMap::<u32, u64>::new();
@@ -212,6 +216,9 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.stream_position()?;
+        if section_size > file_end - offset {
+            return Err(Error::new(ErrorKind::UnexpectedEof, "Section exceeds the file"));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
         reader.seek(SeekFrom::Current(section_size as i64))?;
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..3ea7795 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -49,11 +49,11 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid header section size"));
     }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -73,7 +73,7 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<(usize, E::Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -91,7 +91,7 @@ fn read_constraints<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -117,18 +117,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
@@ -140,7 +140,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
@@ -197,6 +197,10 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
 
     let num_sections = reader.read_u32::<LittleEndian>()?;
 
+    let sections_start = reader.stream_position()?;
+    let file_end = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(sections_start))?;
+
     // section type -> file offset
     let mut section_offsets = BTreeMap::<u32, u64>::new();
     let mut section_sizes = BTreeMap::<u32, u64>::new();
@@ -207,6 +211,9 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.stream_position()?;
+        if section_size > file_end - offset {
+            return Err(Error::new(ErrorKind::UnexpectedEof, "Section exceeds the file"));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
         reader.seek(SeekFrom::Current(section_size as i64))?;
-- 
2.43.0


From bfe7dc74abe223d9820737b5da7e72befd965fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 10/46] fix: refuse R1CS files of another field, and GPU
 witness files with missing or invalid elements

---
 algebraic-gpu/src/r1cs_file.rs | 6 +++++-
 algebraic-gpu/src/reader.rs    | 6 ++----
 algebraic/src/r1cs_file.rs     | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 1014a2d..4067e6d 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -4,6 +4,8 @@
 use crate::circom_circuit::{Constraint, CustomGates, CustomGatesUses};
 use byteorder::{LittleEndian, ReadBytesExt};
 use ff::PrimeField;
+use num_bigint::BigUint;
+use num_traits::Num;
 use std::{
     collections::BTreeMap,
     io::{Error, ErrorKind, Read, Result, Seek, SeekFrom},
@@ -237,7 +239,9 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
             "This parser only supports 32-bytes or 8-bytes fields",
         ));
     }
-    if header.field_size != E::NUM_BITS.div_ceil(8) {
+    let prime = BigUint::from_str_radix(E::MODULUS.trim_start_matches("0x"), 16)
+        .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
+    if BigUint::from_bytes_le(&header.prime_size) != prime {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
     if !(header.prime_size
diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..a4c9b4c 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -105,14 +105,12 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid witness element");
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 3ea7795..fcf3900 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -232,7 +232,9 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
             "This parser only supports 32-bytes or 8-bytes fields",
         ));
     }
-    if header.field_size != E::Fr::NUM_BITS.div_ceil(8) {
+    let mut prime = Vec::new();
+    E::Fr::char().write_le(&mut prime)?;
+    if header.prime_size != prime {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
     if !(header.prime_size
-- 
2.43.0


From ac12fb0f3e8dbf66b6fdd6733e915a469b6864e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 11/46] fix: size witness sections in 64 bits and do not
 allocate from an unchecked count

---
 algebraic-gpu/src/reader.rs                     | 4 ++--
 algebraic-gpu/src/witness/witness_calculator.rs | 2 +-
 algebraic/src/reader.rs                         | 4 ++--
 algebraic/src/witness/witness_calculator.rs     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index a4c9b4c..8e67fc7 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -98,10 +98,10 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..3dec413 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 864fda9..6393c51 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -124,10 +124,10 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::Fr::zero().into_repr();
         repr.read_le(&mut reader)?;
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..a1a19d9 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -237,7 +237,7 @@ impl WitnessCalculator {
         // sec type
         writer.write_u32::<LittleEndian>(2)?;
         // sec size
-        writer.write_u64::<LittleEndian>((wtns_size * field_size) as u64)?;
+        writer.write_u64::<LittleEndian>(wtns_size as u64 * field_size as u64)?;
 
         for w in wtns {
             writer.write_u32::<LittleEndian>(*w)?;
-- 
2.43.0


From f06e0913f4925f9042e0466c20ec32f191b8cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 12/46] fix: r1cs2plonk turned k*B = C into k*B + C = 0

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..545b1bc 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -56,6 +56,7 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
         lc.retain(|_, v| *v != FGL::ZERO);
     };
 
+    // k * lc1 - lc2, which a constraint with a constant factor requires to vanish
     let join =
         |lc1: &BTreeMap<usize, FGL>, k: &FGL, lc2: &BTreeMap<usize, FGL>| -> BTreeMap<usize, FGL> {
             let mut res: BTreeMap<usize, FGL> = BTreeMap::new();
@@ -70,10 +71,10 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
 
             for (key, val) in lc2.iter() {
                 if !res.contains_key(key) {
-                    res.insert(*key, *val);
+                    res.insert(*key, val.neg());
                 } else {
                     let tmp = res[key];
-                    res.insert(*key, *val + tmp);
+                    res.insert(*key, tmp - *val);
                 }
             }
             normalize(&mut res);
-- 
2.43.0


From 19e2511ee8c92f047ae7a08af8fe6487d13c4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 13/46] fix: plonk_setup counted public outputs twice and
 exposed private signals as publics

---
 recursion/src/compressor12/plonk_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..c758299 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -180,7 +180,8 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
+        // num_inputs counts the constant signal, the public outputs and the public inputs
+        let n_publics = r1cs.num_inputs - 1;
         let n_public_rows = (n_publics - 1) / 12 + 1;
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
-- 
2.43.0


From 60bf800579ea00c15244d2d0b536ecafb0f03fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 14/46] fix: plonk_setup underflowed on circuits without
 publics or constraints

---
 recursion/src/compressor12/plonk_setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index c758299..c0603ac 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -182,7 +182,7 @@ impl PlonkSetupRenderInfo {
         // 4. calculate columns,rows,constraints info.
         // num_inputs counts the constant signal, the public outputs and the public inputs
         let n_publics = r1cs.num_inputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        let n_public_rows = n_publics.div_ceil(12);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -192,7 +192,7 @@ impl PlonkSetupRenderInfo {
                 + custom_gates_info.n_fft * 2
                 + custom_gates_info.n_ev_pol * 2) as usize;
 
-        let mut n_bits = helper::log2_any(n_used - 1) + 1;
+        let mut n_bits = helper::log2_any(n_used.max(2) - 1) + 1;
         if opts.force_bits > 0 {
             n_bits = opts.force_bits;
         }
@@ -219,7 +219,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = n_publics.div_ceil(12);
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From c9d523d05ca738db78284e48d6e9bfa4814d5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 15/46] fix: plonk_setup reserved fewer rows than its gates
 take

---
 recursion/src/compressor12/plonk_setup.rs | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index c0603ac..f025fc0 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,7 +53,11 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // Walks through the packing of plonk_setup_compressor: a row holds two gates of one kind in
+        // each half, and a second half is given to the first new kind that comes along.
+        let mut N = 0;
+        let mut partial_rows: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
@@ -61,13 +65,19 @@ impl NormalPlonkInfo {
             }
             let k = c.str_key();
 
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            match partial_rows.remove(&k) {
+                Some(1) => half_rows += 1,
+                Some(_) => {}
+                None if half_rows > 0 => {
+                    half_rows -= 1;
+                    partial_rows.insert(k, 3);
+                }
+                None => {
+                    N += 1;
+                    partial_rows.insert(k, 1);
+                }
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
 
         Self {
             N,
-- 
2.43.0


From 56a9887e3b1e0bf116c92a278a643c2697a1a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 16/46] fix: plonk_setup mistook the first custom gate for the
 kinds a circuit lacks

---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index f025fc0..1844533 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -90,10 +90,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -110,24 +110,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -142,13 +142,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -395,7 +395,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -440,7 +440,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -601,7 +601,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From e4dbcbbe4df158a67224d6c654f34877d5660b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 17/46] fix: report invalid curve points in gnark JSON as
 errors instead of panicking

---
 recursion-gnark/ffi/src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..cb8e0c3 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -486,8 +486,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From afe8cb315fdf67aa400afacf8bc8f36f2ec92a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 18/46] fix: write the point at infinity of G2 to gnark JSON
 instead of panicking

---
 recursion-gnark/ffi/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index cb8e0c3..2638bd5 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,11 +219,17 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
-                x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
-                x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
-                x_seq.serialize_element(&vec!["1", "0"])?;
+                if let Some((x, y)) = p.xy() {
+                    x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
+                    x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                } else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                }
                 x_seq.end()
             }
             fn serialize_gt<S: Serializer>(
-- 
2.43.0


From 1ab27f809d67721ab8a04bb92efdc6f8a098b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 19/46] fix: report truncated point vectors as errors instead
 of panicking

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 2638bd5..f40ddbf 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -554,7 +554,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G1Affine>> {
         let mut buf = vec![0u8; Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g1_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
@@ -567,7 +567,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G2Affine>> {
         let mut buf = vec![0u8; Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g2_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
-- 
2.43.0


From 2876166f907ed56d2676edf854ce8f9986649771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 20/46] fix: refuse field elements that are not below the
 modulus in binary points and scalars

---
 recursion-gnark/ffi/src/traits.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index f40ddbf..3d4e2b2 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -44,9 +44,11 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let value = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                if value >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(value))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
@@ -67,9 +69,11 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let value = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                if value >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(value))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
-- 
2.43.0


From 32bd54ec9b3ca405425127b7c1baf61ee0fbf1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 21/46] Hooks for a dishonest prover in the STARK monitors (cfg
 verif_hooks only)

---
 starky/src/stark_gen.rs | 47 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index 61776f5..c54c096 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -20,6 +20,42 @@ use profiler_macro::time_profiler;
 use rayon::prelude::*;
 use std::collections::HashMap;
 
+/// Verification hooks (compiled only with `--cfg verif_hooks`): they let a monitor act as a dishonest
+/// prover. Each takes and gives the coefficients of field elements; when none is set nothing changes.
+#[cfg(verif_hooks)]
+pub mod verif {
+    use crate::traits::FieldExtension;
+    use fields::field_gl::Fr as FGL;
+    use std::cell::RefCell;
+
+    pub type Col = Vec<Vec<FGL>>;
+    pub type H = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Option<(Col, Col)>>;
+    pub type Z = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Option<Col>>;
+    pub type Evals = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Col>;
+    thread_local! {
+        pub static H1H2: RefCell<Option<H>> = RefCell::new(None);
+        pub static Z: RefCell<Option<Z>> = RefCell::new(None);
+        pub static EVALS: RefCell<Option<Evals>> = RefCell::new(None);
+    }
+    fn out<F: FieldExtension>(v: &[F]) -> Col {
+        v.iter().map(|e| e.as_elements()).collect()
+    }
+    fn back<F: FieldExtension>(v: Col) -> Vec<F> {
+        v.into_iter().map(|e| if e.len() == 1 { F::from(e[0]) } else { F::from_vec(e) }).collect()
+    }
+    pub fn h1h2<F: FieldExtension>(f: &[F], t: &[F]) -> Option<(Vec<F>, Vec<F>)> {
+        H1H2.with(|h| h.borrow().as_ref()?(&out(f), &out(t))).map(|(a, b)| (back(a), back(b)))
+    }
+    pub fn z<F: FieldExtension>(num: &[F], den: &[F]) -> Option<Vec<F>> {
+        Z.with(|h| h.borrow().as_ref()?(&out(num), &out(den))).map(back)
+    }
+    pub fn evals<F: FieldExtension>(evals: &mut Vec<F>, challenge: &[F]) {
+        if let Some(v) = EVALS.with(|h| Some(h.borrow().as_ref()?(&out(evals), &out(challenge)))) {
+            *evals = back(v);
+        }
+    }
+}
+
 pub struct StarkContext<F: FieldExtension> {
     pub nbits: usize,
     pub nbits_ext: usize,
@@ -465,6 +501,9 @@ impl<M: MerkleTree> StarkProof<M> {
             ctx.evals[i] = acc;
         }
 
+        #[cfg(verif_hooks)]
+        verif::evals(&mut ctx.evals, &ctx.challenge);
+
         log::trace!("Add evals to transcript");
         for i in 0..ctx.evals.len() {
             let b = ctx.evals[i].as_elements().iter().map(|e| vec![*e]).collect::<Vec<Vec<FGL>>>();
@@ -623,6 +662,10 @@ fn set_pol<F: FieldExtension>(
 
 #[time_profiler("calculate_H1H2")]
 fn calculate_H1H2<F: FieldExtension>(f: Vec<F>, t: Vec<F>) -> (Vec<F>, Vec<F>) {
+    #[cfg(verif_hooks)]
+    if let Some(h) = verif::h1h2(&f, &t) {
+        return h;
+    }
     let mut idx_t: HashMap<F, usize> = HashMap::with_capacity(t.len());
     let mut s: Vec<(F, usize)> = vec![(F::ZERO, 0); t.len() + f.len()];
 
@@ -651,6 +694,10 @@ fn calculate_H1H2<F: FieldExtension>(f: Vec<F>, t: Vec<F>) -> (Vec<F>, Vec<F>) {
 }
 
 fn calculate_Z<F: FieldExtension>(num: Vec<F>, den: Vec<F>) -> Vec<F> {
+    #[cfg(verif_hooks)]
+    if let Some(z) = verif::z(&num, &den) {
+        return z;
+    }
     let N = num.len();
     assert_eq!(N, den.len());
     let den_inv = batch_inverse(&den);
-- 
2.43.0


From 943c1bdd6220db78dc2f739b3ec11b6ef5ab3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 22/46] fix: keep one code entry per public so that an imP
 public after a cmP one is computed

---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..978ebee 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -316,6 +316,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // the prover looks the code up by the public's index
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From 120a409eff332737f994fd498c46d1f25cb93b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 23/46] fix: a connection over a single polynomial no longer
 panics in setup

---
 starky/src/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/helper.rs b/starky/src/helper.rs
index fd054fd..5e213cc 100644
--- a/starky/src/helper.rs
+++ b/starky/src/helper.rs
@@ -15,6 +15,9 @@ use std::ops::Mul;
 ///}
 pub fn get_ks(n: usize) -> Vec<FGL> {
     let mut ks: Vec<FGL> = vec![FGL::ZERO; n];
+    if n == 0 {
+        return ks;
+    }
     ks[0] = FGL::from(12275445934081160404u64);
     for i in 1..n {
         ks[i] = ks[i - 1].mul(ks[0])
-- 
2.43.0


From 02b09fdf34b7377bc11390edd1c12f5eb8742a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 24/46] fix: refuse final FRI polynomials one degree above the
 bound

---
 starky/src/fri.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..39ab5dc 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -276,17 +276,16 @@ impl FRI {
 
         let last_pol_e = proof.last.clone();
 
-        #[allow(unused_assignments)]
-        let mut max_deg = 0usize;
-        if pol_bits < (self.in_nbits - self.max_deg_nbits) {
-            max_deg = 0;
+        // a polynomial of degree below 2^n has 2^n coefficients: those from index 2^n on must vanish
+        let n_coefs = if pol_bits < (self.in_nbits - self.max_deg_nbits) {
+            1
         } else {
-            max_deg = 1 << (pol_bits - (self.in_nbits - self.max_deg_nbits));
-        }
+            1 << (pol_bits - (self.in_nbits - self.max_deg_nbits))
+        };
 
         let last_pol_c = standard_fft.ifft(&last_pol_e);
 
-        for i in (max_deg + 1)..last_pol_c.len() {
+        for i in n_coefs..last_pol_c.len() {
             if !last_pol_c[i].is_zero() {
                 log::error!("check last pol c failed");
                 return Ok(false);
-- 
2.43.0


From e2f29f6f7ad547b1ecbbaffff192167d9ef09558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 25/46] fix: find looked-up base field values in tables of
 extension field values

---
 starky/src/stark_gen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index c54c096..0595dd8 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -666,16 +666,18 @@ fn calculate_H1H2<F: FieldExtension>(f: Vec<F>, t: Vec<F>) -> (Vec<F>, Vec<F>) {
     if let Some(h) = verif::h1h2(&f, &t) {
         return h;
     }
+    // a looked-up value may lie in the base field while the table lies in the extension
+    let embed = |e: &F| *e + F::from_vec(vec![FGL::ZERO; 3]);
     let mut idx_t: HashMap<F, usize> = HashMap::with_capacity(t.len());
     let mut s: Vec<(F, usize)> = vec![(F::ZERO, 0); t.len() + f.len()];
 
     for (i, e) in t.iter().enumerate() {
-        idx_t.insert(*e, i);
+        idx_t.insert(embed(e), i);
         s[i] = (*e, i);
     }
 
     for (i, e) in f.iter().enumerate() {
-        let idx = idx_t.get(e);
+        let idx = idx_t.get(&embed(e));
         if idx.is_none() {
             panic!("Number not included: {e:?}");
         }
-- 
2.43.0


From 2ea61739a670de7ae564f47eb2302d4f2d62f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 26/46] Hooks: name the FRI types for the monitors (cfg
 verif_hooks only)

---
 starky/src/stark_gen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index 0595dd8..b6ae95e 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -24,6 +24,7 @@ use std::collections::HashMap;
 /// prover. Each takes and gives the coefficients of field elements; when none is set nothing changes.
 #[cfg(verif_hooks)]
 pub mod verif {
+    pub use crate::fri::{FRIProof, Query, FRI};
     use crate::traits::FieldExtension;
     use fields::field_gl::Fr as FGL;
     use std::cell::RefCell;
-- 
2.43.0


From b39b92a67dc51f8dd3c81cf0d639e7cdeae6245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 27/46] fix: check the leaf widths and the final length of FRI
 proofs

---
 starky/src/fri.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 39ab5dc..30c1fc1 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -193,6 +193,10 @@ impl FRI {
         let tree = M::new();
         let mut standard_fft = FFT::new();
         assert_eq!(proof.queries.len(), self.steps.len()); // the last +1 is omitted
+        if proof.last.len() != 1 << self.steps[self.steps.len() - 1].nBits {
+            log::error!("the final polynomial has {} values", proof.last.len());
+            return Ok(false);
+        }
         let mut special_x: Vec<F> = vec![];
         for si in 0..self.steps.len() {
             special_x.push(transcript.get_field());
@@ -221,6 +225,11 @@ impl FRI {
                               query: &Vec<(Vec<FGL>, Vec<Vec<M::BaseField>>)>,
                               idx: usize|
          -> Result<Vec<F>> {
+            // a wider leaf would let the prover choose the degree of the fold
+            if query[0].0.len() != 3 << (self.steps[si - 1].nBits - self.steps[si].nBits) {
+                log::error!("a group of {} elements, si:{},idx:{}", query[0].0.len(), si, idx);
+                bail!("FRIVerifierFailed");
+            }
             let res =
                 tree.verify_group_proof(&proof.queries[si].root, &query[0].1, idx, &query[0].0)?;
             if !res {
-- 
2.43.0


From bf47916163c826eb7769e254fa4bbb70153dfa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 28/46] fix: refuse truncated trace files instead of looping
 for ever

---
 starky/src/polsarray.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..7101079 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -150,25 +150,12 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
-            let buff: &[u64] = unsafe {
-                std::slice::from_raw_parts(
-                    buff8.as_ptr() as *const u64,
-                    buff8.len() / std::mem::size_of::<u64>(),
-                )
-            };
-            n = rs / 8;
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            // an error when the file ends early; a read may return less than asked for
+            f.read_exact(&mut buff8[..(n * 8)])?;
 
-            for l in 0..n {
-                self.array[i][j] = FGL::from(buff[l]);
+            for b in buff8[..(n * 8)].chunks_exact(8) {
+                self.array[i][j] = FGL::from(u64::from_le_bytes(b.try_into().unwrap()));
                 i += 1;
                 if i == self.nPols {
                     i = 0;
-- 
2.43.0


From d326d200d607250b0c266e24eeeb24e18bfeac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 29/46] fix: keep every column of a namespace in the
 definitions of a polynomial set

---
 starky/src/polsarray.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 7101079..e1d0404 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -85,9 +85,7 @@ impl PolsArray {
                         polDeg: ref_.polDeg,
                     };
                     let arrayPols: Vec<usize> = vec![ref_.id];
-                    let mut ns: HashMap<String, Vec<usize>> = HashMap::new();
-                    ns.insert(namePols, arrayPols);
-                    def.insert(nameSpace, ns);
+                    def.entry(nameSpace).or_default().insert(namePols, arrayPols);
                     array[ref_.id] = vec![FGL::default(); ref_.polDeg];
                 }
             }
-- 
2.43.0


From fa96bf20f9e4d78ea710429210904cfccc9838f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 30/46] fix: do not write the stale tail of the buffer after a
 trace

---
 starky/src/polsarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index e1d0404..646e9b0 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -193,7 +193,7 @@ impl PolsArray {
             let buff8: &[u8] = unsafe {
                 std::slice::from_raw_parts(
                     buff.as_ptr() as *const u8,
-                    buff.len() * std::mem::size_of::<u64>(),
+                    p * std::mem::size_of::<u64>(),
                 )
             };
             writer.write_all(buff8)?;
-- 
2.43.0


From cd535bfad82b2494f81aa3cf670d184dcfbe6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 31/46] fix: the packed negation of zero is zero, not the
 modulus

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 3 ++-
 fields/src/arch/x86_64/avx512_field_gl.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..7ac5031 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -352,7 +352,8 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
     let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    // FIELD_ORDER - 0 is FIELD_ORDER itself
+    shift(canonicalize_s(shift(_mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s)))))
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..e507f2d 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,8 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    // FIELD_ORDER - 0 is FIELD_ORDER itself
+    canonicalize(_mm512_sub_epi64(FIELD_ORDER, canonicalize(y)))
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0


From dcfcf9994ed9f163c075a62000277b4b682aa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 32/46] fix: generate the step-0 checks of Goldilocks verifier
 circuits once, also for a single FRI step

---
 starky/src/stark_verifier_circom.rs | 58 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0f7573c..8cb3d62 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1282,6 +1282,35 @@ template StarkVerifier() {{
         "#,
     );
 
+    //// Checks
+    let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
+        "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
+    } else {
+        ""
+    };
+    let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
+        "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
+    } else {
+        ""
+    };
+    res.push_str(&format!(
+        r#"
+        for(var q = 0; q < {}; q ++) {{
+            for(var j = 0; j < 4; j ++) {{
+                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
+                {}
+                {}
+                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
+                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
+            }}
+            for (var e = 0; e < 3; e ++) {{
+                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
+            }}
+        }}
+        "#,
+        stark_struct.nQueries, enable2, enable3
+    ));
+
     for s in 1..stark_struct.steps.len() {
         res.push_str(&format!(
             r#"
@@ -1422,35 +1451,6 @@ template StarkVerifier() {{
             ));
         }
 
-        //// Checks
-        let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
-            "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
-        } else {
-            ""
-        };
-        let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
-            "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
-        } else {
-            ""
-        };
-        res.push_str(&format!(
-            r#"
-        for(var q = 0; q < {}; q ++) {{
-            for(var j = 0; j < 4; j ++) {{
-                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
-                {}
-                {}
-                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
-                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
-            }}
-            for (var e = 0; e < 3; e ++) {{
-                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
-            }}
-        }}
-        "#,
-            stark_struct.nQueries, enable2, enable3
-        ));
-
         res.push_str(&format!(
             r#"
         for (var e=0; e<3; e++) {{
-- 
2.43.0


From 63b95f313398f30b866e09b7b2123ef4b03cf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 33/46] fix: pass the second and third tree to the verifiers of
 generated Goldilocks Main circuits when they exist

---
 starky/src/stark_verifier_circom.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 8cb3d62..ae519b1 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -802,6 +802,22 @@ template MapValues() {{
     res
 }
 
+// Pass the openings of the second and third trees on to a verifier component, if the proof has them
+fn pass_stage_trees(starkinfo: &StarkInfo, component: &str, prefix: &str) -> String {
+    let mut res = String::new();
+    for (t, section) in [(2, "cm2_2ns"), (3, "cm3_2ns")] {
+        if starkinfo.map_sectionsN.get(section) > 0 {
+            res.push_str(&format!(
+                r#"
+    {component}.s0_vals{t} <== {prefix}s0_vals{t};
+    {component}.s0_siblings{t} <== {prefix}s0_siblings{t};
+            "#
+            ));
+        }
+    }
+    res
+}
+
 #[time_profiler()]
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
@@ -1630,17 +1646,16 @@ template Main() {{
     vA.root4 <== root4;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&pass_stage_trees(starkinfo, "vA", ""));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -1791,17 +1806,16 @@ template Main() {{
     vA.rootC <== rootC;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&pass_stage_trees(starkinfo, "vA", ""));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -2030,11 +2044,9 @@ template Main() {{
     vA.rootC <== a_rootC;
     vA.evals <== a_evals;
     vA.s0_vals1 <== a_s0_vals1;
-    vA.s0_vals3 <== a_s0_vals3;
     vA.s0_vals4 <== a_s0_vals4;
     vA.s0_valsC <== a_s0_valsC;
     vA.s0_siblings1 <== a_s0_siblings1;
-    vA.s0_siblings3 <== a_s0_siblings3;
     vA.s0_siblings4 <== a_s0_siblings4;
     vA.s0_siblingsC <== a_s0_siblingsC;
 
@@ -2042,6 +2054,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&pass_stage_trees(starkinfo, "vA", "a_"));
         // component isOneBatchA = IsZero();
         // isOneBatchA.in  <== a_publics[43] - a_publics[16] - 1; a_publics[43]-> newBatchNum;  a_publics[16]-> oldBatchNum
         // TODO: "vA.rootC <== rootCSingle;" this need to change!!!
@@ -2070,11 +2083,9 @@ template Main() {{
     vB.rootC <== b_rootC;
     vB.evals <== b_evals;
     vB.s0_vals1 <== b_s0_vals1;
-    vB.s0_vals3 <== b_s0_vals3;
     vB.s0_vals4 <== b_s0_vals4;
     vB.s0_valsC <== b_s0_valsC;
     vB.s0_siblings1 <== b_s0_siblings1;
-    vB.s0_siblings3 <== b_s0_siblings3;
     vB.s0_siblings4 <== b_s0_siblings4;
     vB.s0_siblingsC <== b_s0_siblingsC;
 
@@ -2082,6 +2093,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&pass_stage_trees(starkinfo, "vB", "b_"));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
-- 
2.43.0


From 5eab5c9d8e34afdc9663d12e87ce84f74a515b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 34/46] fix: on-chain verifier circuits add and multiply base
 field values with valid circom

---
 starky/src/stark_verifier_circom_onchain.rs | 33 +++++++--------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index b712e30..f29c0f0 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -216,7 +216,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {}[0] + {}[0];"#,
+    signal {} <== {} + {};"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -306,7 +306,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} = GLCMul1()({}, {});"#,
+    signal {} <== GLMul()({}, {});"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -359,28 +359,15 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 }
             }
             "muladd" => {
-                if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
-                    if inst.src[2].dim == 1 {
-                        str_code.push_str(&format!(
-                            r#"
+                if inst.src[0].dim == 1 && inst.src[1].dim == 1 && inst.src[2].dim == 1 {
+                    str_code.push_str(&format!(
+                        r#"
     signal {} <== GLMulAdd()({}, {}, {});"#,
-                            ref_(&inst.dest),
-                            ref_(&inst.src[0]),
-                            ref_(&inst.src[1]),
-                            ref_(&inst.src[2])
-                        ));
-                    } else {
-                        str_code.push_str(&format!(
-                            r#"
-    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]);"#,
-                            ref_(&inst.dest),
-                            ref_(&inst.src[0]),
-                            ref_(&inst.src[1]),
-                            ref_(&inst.src[2]),
-                            ref_(&inst.src[2]),
-                            ref_(&inst.src[2])
-                        ));
-                    }
+                        ref_(&inst.dest),
+                        ref_(&inst.src[0]),
+                        ref_(&inst.src[1]),
+                        ref_(&inst.src[2])
+                    ));
                 } else {
                     let ina = match inst.src[0].dim {
                         1 => format!("[{}, 0, 0]", ref_(&inst.src[0])),
-- 
2.43.0


From b35e6a76d3f354048fe228a3a86ca19e88fe0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 35/46] fix: on-chain verifier circuits fold FRI layers of two
 points

---
 starky/src/stark_verifier_circom_onchain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index f29c0f0..40a4145 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1386,7 +1386,7 @@ template StarkVerifier() {{
             stark_struct.steps[s - 1].nBits
         ));
 
-        if stark_struct.steps[0].nBits > 1 {
+        if stark_struct.steps[s].nBits > 1 {
             res.push_str(&format!(
                 r#"
         s{}_X[q] <== s{}_sx[q][{}].out;
@@ -1398,13 +1398,12 @@ template StarkVerifier() {{
         } else {
             res.push_str(&format!(
                 r#"
-        s{}_X[q] <== {} *  ( ys[q][0] * {} +1);
+        s{}_X[q] <== ys[q][0] * ({} - {}) + {};
         "#,
                 s,
-                (F3G::from(*SHIFT)
-                    .exp(1 << (stark_struct.nBitsExt - stark_struct.steps[s - 1].nBits)))
-                .inv(),
-                F3G::from(MG.0[stark_struct.steps[s - 1].nBits]) - F3G::ONE
+                e1.as_int(),
+                e0.as_int(),
+                e0.as_int()
             ));
         }
 
-- 
2.43.0


From dcede88b642d696063810d11b08f3de0d819ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 36/46] fix: decompose field elements canonically in the
 BLS12-381 verifier circuits

---
 stark-circuits/circuits/bn1togl3.circom     | 28 ++++++++++++++++++++-
 starky/src/stark_verifier_circom_onchain.rs |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/stark-circuits/circuits/bn1togl3.circom b/stark-circuits/circuits/bn1togl3.circom
index e3d1980..8a08a7f 100644
--- a/stark-circuits/circuits/bn1togl3.circom
+++ b/stark-circuits/circuits/bn1togl3.circom
@@ -3,11 +3,37 @@ pragma circom 2.0.6;
 
 include "bitify.circom";
 
+// Num2Bits that has exactly one solution, whatever the prime of the circuit
+// (Num2Bits_strict is tied to 254 bits): the bits must spell a number below the prime.
+template Num2BitsCanonical(n) {
+    signal input in;
+    signal output out[n];
+
+    // p - 1
+    var max = -1;
+
+    component n2b = Num2Bits(n);
+    n2b.in <== in;
+
+    // same[i]: the bits from i upwards are those of p - 1
+    signal same[n+1];
+    same[n] <== 1;
+    for (var i=n-1; i>=0; i--) {
+        if (((max >> i) & 1) == 1) {
+            same[i] <== same[i+1] * n2b.out[i];
+        } else {
+            same[i+1] * n2b.out[i] === 0;
+            same[i] <== same[i+1];
+        }
+        out[i] <== n2b.out[i];
+    }
+}
+
 template BN1toGL3() {
     signal input in;
     signal output out[3];
 
-    component n2b = Num2Bits(255);
+    component n2b = Num2BitsCanonical(255);
 
     n2b.in <== in;
 
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index 40a4145..efd6ce6 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -152,7 +152,7 @@ impl Transcript {
         let mut n2b: Vec<String> = vec![];
         let n2bt = match self.stark_struct.verificationHashType.as_str() {
             "BN128" => "Num2Bits_strict()".to_string(),
-            "BLS12381" => "Num2Bits(255)".to_string(),
+            "BLS12381" => "Num2BitsCanonical(255)".to_string(),
             _ => todo!(),
         };
         for i in 0..NFields {
-- 
2.43.0


From 0126587fe21e3b0754f6af7a94fd677b68dc831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 37/46] fix: groth16 refuses numbers that are not reduced

---
 groth16/src/json_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groth16/src/json_utils.rs b/groth16/src/json_utils.rs
index 60d1538..918c9db 100644
--- a/groth16/src/json_utils.rs
+++ b/groth16/src/json_utils.rs
@@ -135,6 +135,11 @@ pub fn render_str_to_scalar<F: PrimeField>(value: &str) -> F {
         true => BigUint::from_str_radix(&value[2..], 16).unwrap().to_str_radix(10),
         _ => value.to_string(),
     };
+    let modulus = BigUint::from_str_radix(&repr_to_big(F::char()), 10).unwrap();
+    assert!(
+        BigUint::from_str_radix(&value, 10).unwrap() < modulus,
+        "{value} is not reduced modulo the order of the field"
+    );
     F::from_str(&value).unwrap()
 }
 
-- 
2.43.0


From 942775a07f7c53f3bbaba447716c6a26d53a4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 38/46] fix: groth16 refuses points outside the prime-order
 group

---
 groth16/src/json_utils.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/groth16/src/json_utils.rs b/groth16/src/json_utils.rs
index 918c9db..5cb27c2 100644
--- a/groth16/src/json_utils.rs
+++ b/groth16/src/json_utils.rs
@@ -18,6 +18,7 @@ use franklin_crypto::bellman::{
     },
     bn256::{Fq2, G1Affine, G2Affine},
     groth16::{Proof, VerifyingKey},
+    pairing::EncodedPoint,
     CurveAffine,
 };
 use num_bigint::BigUint;
@@ -143,6 +144,12 @@ pub fn render_str_to_scalar<F: PrimeField>(value: &str) -> F {
     F::from_str(&value).unwrap()
 }
 
+/// The point itself, if it is on the curve and in its prime-order subgroup.
+#[cfg(not(any(feature = "cuda", feature = "opencl")))]
+fn checked_point<G: CurveAffine>(point: G) -> G {
+    point.into_uncompressed().into_affine().expect("Not a point of the group")
+}
+
 #[cfg(not(any(feature = "cuda", feature = "opencl")))]
 pub fn to_public_input<T: PrimeField>(s: &str) -> Vec<T> {
     let input: Vec<String> = serde_json::from_str(s).unwrap();
@@ -166,13 +173,16 @@ impl Parser for Bn256 {
     }
 
     fn to_g1(x: &str, y: &str) -> Self::G1Affine {
-        G1Affine::from_xy_unchecked(render_str_to_scalar(x), render_str_to_scalar(y))
+        checked_point(G1Affine::from_xy_unchecked(
+            render_str_to_scalar(x),
+            render_str_to_scalar(y),
+        ))
     }
 
     fn to_g2(x0: &str, x1: &str, y0: &str, y1: &str) -> Self::G2Affine {
         let x = Fq2 { c0: render_str_to_scalar(x0), c1: render_str_to_scalar(x1) };
         let y = Fq2 { c0: render_str_to_scalar(y0), c1: render_str_to_scalar(y1) };
-        G2Affine::from_xy_unchecked(x, y)
+        checked_point(G2Affine::from_xy_unchecked(x, y))
     }
 }
 
@@ -194,13 +204,16 @@ impl Parser for Bls12 {
     }
 
     fn to_g1(x: &str, y: &str) -> Self::G1Affine {
-        G1Affine_bls12381::from_xy_unchecked(render_str_to_scalar(x), render_str_to_scalar(y))
+        checked_point(G1Affine_bls12381::from_xy_unchecked(
+            render_str_to_scalar(x),
+            render_str_to_scalar(y),
+        ))
     }
 
     fn to_g2(x0: &str, x1: &str, y0: &str, y1: &str) -> Self::G2Affine {
         let x = Fq2_bls12381 { c0: render_str_to_scalar(x0), c1: render_str_to_scalar(x1) };
         let y = Fq2_bls12381 { c0: render_str_to_scalar(y0), c1: render_str_to_scalar(y1) };
-        G2Affine_bls12381::from_xy_unchecked(x, y)
+        checked_point(G2Affine_bls12381::from_xy_unchecked(x, y))
     }
 }
 
@@ -277,13 +290,17 @@ impl Parser for Bls12 {
     }
 
     fn to_g1(x: &str, y: &str) -> Self::G1Affine {
-        G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false)
+        let point = G1Affine::from_raw_unchecked(render_str_to_fp(x), render_str_to_fp(y), false);
+        assert!(bool::from(point.is_on_curve()) && bool::from(point.is_torsion_free()));
+        point
     }
 
     fn to_g2(x0: &str, x1: &str, y0: &str, y1: &str) -> Self::G2Affine {
         let x = Fp2::new(render_str_to_fp(x0), render_str_to_fp(x1));
         let y = Fp2::new(render_str_to_fp(y0), render_str_to_fp(y1));
-        G2Affine::from_raw_unchecked(x, y, false)
+        let point = G2Affine::from_raw_unchecked(x, y, false);
+        assert!(bool::from(point.is_on_curve()) && bool::from(point.is_torsion_free()));
+        point
     }
 }
 
-- 
2.43.0


From 3ada779cb94d588df88e177d724dae6dee57f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 39/46] fix: fail witness computation on inputs the circuit
 does not accept

The circuit's runtime reports failed assertions, missing values and the like
through exceptionHandler, which was a no-op, so that the calculator returned
whatever the memory held as the witness. Names that are not inputs of the
circuit are still left out, which the recursion steps rely on.
---
 algebraic-gpu/src/witness/circom.rs           | 24 ++++++++++++++
 .../src/witness/witness_calculator.rs         | 31 +++++++++++++++++--
 algebraic/src/witness/circom.rs               | 24 ++++++++++++++
 algebraic/src/witness/witness_calculator.rs   | 31 +++++++++++++++++--
 4 files changed, 106 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/witness/circom.rs b/algebraic-gpu/src/witness/circom.rs
index 46c70b6..75173f4 100644
--- a/algebraic-gpu/src/witness/circom.rs
+++ b/algebraic-gpu/src/witness/circom.rs
@@ -40,6 +40,30 @@ impl Wasm {
         Ok(())
     }
 
+    // None if the circuit does not tell
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
+    // None if the circuit does not tell, 0 for a name that is not an input
+    pub(crate) fn get_input_signal_size(
+        &self,
+        store: &mut Store,
+        hmsb: u32,
+        hlsb: u32,
+    ) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                let size = func.call(store, &[hmsb.into(), hlsb.into()])?[0].unwrap_i32();
+                Ok(Some(size.max(0) as u32))
+            }
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 3dec413..0442dd1 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -151,10 +151,22 @@ impl WitnessCalculator {
         self.instance.init(&mut self.store, sanity_check)?;
 
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
+        let input_size = self.instance.get_input_size(&mut self.store)?;
+        let mut given = 0;
 
         // allocate the inputs
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
+            if let Some(size) = self.instance.get_input_signal_size(&mut self.store, msb, lsb)? {
+                // not an input of this circuit, e.g. the rootC of a proof
+                if size == 0 {
+                    continue;
+                }
+                if values.len() != size as usize {
+                    bail!("Input {name} takes {size} values, {} given", values.len());
+                }
+            }
+            given += values.len();
 
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&value, n32 as usize);
@@ -168,6 +180,11 @@ impl WitnessCalculator {
                 self.instance.set_input_signal(&mut self.store, msb, lsb, i as u32)?;
             }
         }
+        if let Some(size) = input_size {
+            if given != size as usize {
+                bail!("The circuit takes {size} input values, {given} given");
+            }
+        }
 
         let mut w = Vec::new();
 
@@ -314,8 +331,18 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            let reason = match code {
+                // a name that is not an input of the circuit is left out
+                1 | 2 => return Ok(()),
+                3 => "signal already set",
+                4 => "assert failed",
+                5 => "not enough memory",
+                6 => "input signal array access exceeds the size",
+                _ => "unknown error",
+            };
+            Err(wasmer::RuntimeError::new(format!("circuit exception {code}: {reason}")))
+        }
         Function::new_typed(store, func)
     }
 
diff --git a/algebraic/src/witness/circom.rs b/algebraic/src/witness/circom.rs
index 46c70b6..75173f4 100644
--- a/algebraic/src/witness/circom.rs
+++ b/algebraic/src/witness/circom.rs
@@ -40,6 +40,30 @@ impl Wasm {
         Ok(())
     }
 
+    // None if the circuit does not tell
+    pub(crate) fn get_input_size(&self, store: &mut Store) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSize") {
+            Ok(func) => Ok(Some(func.call(store, &[])?[0].unwrap_i32() as u32)),
+            Err(_) => Ok(None),
+        }
+    }
+
+    // None if the circuit does not tell, 0 for a name that is not an input
+    pub(crate) fn get_input_signal_size(
+        &self,
+        store: &mut Store,
+        hmsb: u32,
+        hlsb: u32,
+    ) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                let size = func.call(store, &[hmsb.into(), hlsb.into()])?[0].unwrap_i32();
+                Ok(Some(size.max(0) as u32))
+            }
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index a1a19d9..2101287 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -151,10 +151,22 @@ impl WitnessCalculator {
         self.instance.init(&mut self.store, sanity_check)?;
 
         let n32 = self.instance.get_field_num_len32(&mut self.store)?;
+        let input_size = self.instance.get_input_size(&mut self.store)?;
+        let mut given = 0;
 
         // allocate the inputs
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
+            if let Some(size) = self.instance.get_input_signal_size(&mut self.store, msb, lsb)? {
+                // not an input of this circuit, e.g. the rootC of a proof
+                if size == 0 {
+                    continue;
+                }
+                if values.len() != size as usize {
+                    bail!("Input {name} takes {size} values, {} given", values.len());
+                }
+            }
+            given += values.len();
 
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&value, n32 as usize);
@@ -168,6 +180,11 @@ impl WitnessCalculator {
                 self.instance.set_input_signal(&mut self.store, msb, lsb, i as u32)?;
             }
         }
+        if let Some(size) = input_size {
+            if given != size as usize {
+                bail!("The circuit takes {size} input values, {given} given");
+            }
+        }
 
         let mut w = Vec::new();
 
@@ -314,8 +331,18 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            let reason = match code {
+                // a name that is not an input of the circuit is left out
+                1 | 2 => return Ok(()),
+                3 => "signal already set",
+                4 => "assert failed",
+                5 => "not enough memory",
+                6 => "input signal array access exceeds the size",
+                _ => "unknown error",
+            };
+            Err(wasmer::RuntimeError::new(format!("circuit exception {code}: {reason}")))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From e5c930222eb2546555be93089b89f8800e6ecccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 40/46] fix: refuse constraints of a degree beyond the blow-up

Setup went on without a quotient when no choice of intermediate polynomials
brings the constraints down to the degree the extended domain allows, and
proofs of the program never verified.
---
 starky/src/starkinfo_cp_prover.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starky/src/starkinfo_cp_prover.rs b/starky/src/starkinfo_cp_prover.rs
index 3fdfb6e..9f994b3 100644
--- a/starky/src/starkinfo_cp_prover.rs
+++ b/starky/src/starkinfo_cp_prover.rs
@@ -4,7 +4,7 @@ use crate::starkinfo_codegen::Section;
 use crate::starkinfo_codegen::{build_code, pil_code_gen, Context, Node};
 use crate::types::Expression;
 use crate::types::{StarkStruct, PIL};
-use anyhow::Result;
+use anyhow::{bail, Result};
 use std::collections::HashMap;
 
 impl StarkInfo {
@@ -35,8 +35,10 @@ impl StarkInfo {
         }
         self.q_deg = 0;
         let max_deg = (1 << (stark_struct.nBitsExt - stark_struct.nBits)) + 1;
+        let mut expressible = false;
         for d in 2..=max_deg {
             let (im_exps, q_deg) = calculate_im_pols(pil, &c_exp, d)?;
+            expressible |= im_exps.is_some();
             if im_exps.is_some()
                 && (self.q_deg == 0
                     || (im_exps.as_ref().unwrap().len() + (q_deg as usize)
@@ -47,6 +49,10 @@ impl StarkInfo {
             }
         }
 
+        if !expressible {
+            bail!("The constraints exceed degree {max_deg}, the most that the blow-up allows");
+        }
+
         //log::trace!("im_exps: {:?} q_deg {}", self.im_exps, self.q_deg);
 
         for k in self.im_exps.keys() {
-- 
2.43.0


From cf68d7910b2194fc0af2dd6cc595242c1ec263c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 41/46] verif hook: a prover may alter a committed section or a
 FRI layer

---
 starky/src/fri.rs       |  2 ++
 starky/src/stark_gen.rs | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 30c1fc1..09778e2 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -124,6 +124,8 @@ impl FRI {
                     sinv *= wi;
                 }
             }
+            #[cfg(verif_hooks)]
+            crate::stark_gen::verif::layer(&si.to_string(), 1, &mut pol2_e);
             if si < self.steps.len() - 1 {
                 let n_groups = 1 << self.steps[si + 1].nBits;
                 let group_size = (1 << stepi.nBits) / n_groups;
diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index b6ae95e..3f8d45e 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -33,7 +33,10 @@ pub mod verif {
     pub type H = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Option<(Col, Col)>>;
     pub type Z = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Option<Col>>;
     pub type Evals = Box<dyn Fn(&[Vec<FGL>], &[Vec<FGL>]) -> Col>;
+    /// the name of a section (or the number of a FRI layer), its width, its values over the extended domain
+    pub type Layer = Box<dyn Fn(&str, usize, &[Vec<FGL>]) -> Option<Col>>;
     thread_local! {
+        pub static LAYER: RefCell<Option<Layer>> = RefCell::new(None);
         pub static H1H2: RefCell<Option<H>> = RefCell::new(None);
         pub static Z: RefCell<Option<Z>> = RefCell::new(None);
         pub static EVALS: RefCell<Option<Evals>> = RefCell::new(None);
@@ -50,6 +53,11 @@ pub mod verif {
     pub fn z<F: FieldExtension>(num: &[F], den: &[F]) -> Option<Vec<F>> {
         Z.with(|h| h.borrow().as_ref()?(&out(num), &out(den))).map(back)
     }
+    pub fn layer<F: FieldExtension>(name: &str, width: usize, values: &mut Vec<F>) {
+        if let Some(v) = LAYER.with(|h| h.borrow().as_ref()?(name, width, &out(values))) {
+            *values = back(v);
+        }
+    }
     pub fn evals<F: FieldExtension>(evals: &mut Vec<F>, challenge: &[F]) {
         if let Some(v) = EVALS.with(|h| Some(h.borrow().as_ref()?(&out(evals), &out(challenge)))) {
             *evals = back(v);
@@ -772,6 +780,8 @@ pub fn extend_and_merkelize<M: MerkleTree>(
 
     let p = ctx.get_mut(section_name);
     interpolate(p, n_pols, nBits, result, nBitsExt);
+    #[cfg(verif_hooks)]
+    verif::layer(section_name, n_pols, result);
     let mut p_be = vec![FGL::ZERO; result.len()];
     p_be.par_iter_mut().zip(result).for_each(|(be_out, f3g_in)| {
         *be_out = f3g_in.to_be();
-- 
2.43.0


From 34d815b170b6b1263e948ae52b7b302dd71bebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:16 +0000
Subject: [PATCH 42/46] fix: name a polynomial of a :: namespace without a
 leading colon

---
 recursion/src/pilcom/export.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recursion/src/pilcom/export.rs b/recursion/src/pilcom/export.rs
index 15b2305..9001eea 100644
--- a/recursion/src/pilcom/export.rs
+++ b/recursion/src/pilcom/export.rs
@@ -188,7 +188,7 @@ fn fixup_name(name: &str) -> String {
     if name.contains('.') {
         name.to_string()
     } else if let Some(last) = name.rfind("::") {
-        format!("{}.{}", &name[..last], &name[last + 1..])
+        format!("{}.{}", &name[..last], &name[last + 2..])
     } else {
         panic!("Witness or intermediate column is not inside a namespace: {name}");
     }
-- 
2.43.0


From 950840d75cfc00ee7af6a26fe8c96388b230fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 43/46] fix: stark_prove: -s cannot be two options at once

---
 zkit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkit/src/main.rs b/zkit/src/main.rs
index e6854be..2a05ef2 100644
--- a/zkit/src/main.rs
+++ b/zkit/src/main.rs
@@ -103,7 +103,7 @@ struct StarkProveOpt {
     piljson: String,
     #[arg(short, long = "norm_stage", action= clap::ArgAction::SetTrue)]
     norm_stage: bool,
-    #[arg(short, long = "skip_main", action= clap::ArgAction::SetTrue)]
+    #[arg(long = "skip_main", action= clap::ArgAction::SetTrue)]
     skip_main: bool,
     #[arg(short, long = "agg_stage", action= clap::ArgAction::SetTrue)]
     agg_stage: bool,
-- 
2.43.0


From f95ca7157cdff3b7ada9e4dff9d68617cea0568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 44/46] fix: dsl_compile: a witness program that could not be
 written fails the compilation

---
 dsl_compile/src/compilation_user.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsl_compile/src/compilation_user.rs b/dsl_compile/src/compilation_user.rs
index dbe1abb..2b87f89 100644
--- a/dsl_compile/src/compilation_user.rs
+++ b/dsl_compile/src/compilation_user.rs
@@ -81,7 +81,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::run_compiler"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
             return wat_to_wasm(&config.wat_file, &config.wasm_file);
@@ -95,7 +97,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
             ) {
                 Ok(()) => (),
 
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             let result = wat_to_wasm(&config.wat_file, &config.wasm_file);
             std::fs::remove_file(&config.wat_file).unwrap();
@@ -109,7 +113,9 @@ pub fn compile(config: CompilerConfig) -> Result<()> {
                 &config.wat_file,
             ) {
                 Ok(()) => (),
-                _ => log::error!("compiler_interface::write_wasm error"),
+                _ => bail!(DslError::CircomCompileError(
+                    "compiler_interface::write_wasm error".to_string(),
+                )),
             };
             log::trace!("{} {}", Colour::Green.paint("Written successfully:"), config.wat_file);
         }
-- 
2.43.0


From 389bfb2453556b9edb85d562ed53811f8891a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 45/46] fix: parse_pil_number: numbers below minus the modulus

---
 starky/src/types.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..5432b9f 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -220,16 +220,12 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
+    let n_val: i128 = match raw_val.starts_with("0x") {
         true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
         _ => raw_val.parse::<i128>().unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
-    }
-    n_val %= 18446744069414584321;
-    n_val as u64
+    n_val.rem_euclid(18446744069414584321) as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From dcc8900f06ad85b6df5ee581e932ed93a5898365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:03 +0000
Subject: [PATCH 46/46] fix: gnark bridge wrote the point at infinity as (0, 0,
 1)

---
 recursion-gnark/ffi/go/eigen/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recursion-gnark/ffi/go/eigen/utils.go b/recursion-gnark/ffi/go/eigen/utils.go
index 7a60146..4bc74cb 100644
--- a/recursion-gnark/ffi/go/eigen/utils.go
+++ b/recursion-gnark/ffi/go/eigen/utils.go
@@ -123,6 +123,9 @@ func g1ToString(p *bls12381curve.G1Affine) ([]string, error) {
 	if p == nil {
 		return nil, fmt.Errorf("nil G1 point")
 	}
+	if p.IsInfinity() {
+		return []string{"0", "1", "0"}, nil
+	}
 	xBig := p.X.BigInt(new(big.Int))
 	yBig := p.Y.BigInt(new(big.Int))
 	return []string{
@@ -136,6 +139,9 @@ func g2ToString(p *bls12381curve.G2Affine) ([][]string, error) {
 	if p == nil {
 		return nil, fmt.Errorf("nil G2 point")
 	}
+	if p.IsInfinity() {
+		return [][]string{{"0", "0"}, {"1", "0"}, {"0", "0"}}, nil
+	}
 	x0 := p.X.A0.BigInt(new(big.Int))
 	x1 := p.X.A1.BigInt(new(big.Int))
 	y0 := p.Y.A0.BigInt(new(big.Int))
-- 
2.43.0

