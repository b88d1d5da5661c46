From f82f972f394a553f69072a5210816af08b86502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 01/14] fix: signal division with a constant numerator returned
 the inverse quotient

CNum::div_assign computed other/self instead of self/other whenever the
left operand was a constant signal (6/2 evaluated to 1/3).
---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From 3beb91e5658c57f2a97548f11b79cb0d8d2fa1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 02/14] fix: SizedVec signals panicked instead of reporting a
 missing value

Collecting straight into Option<SizedVec> stops at the first None and hands
the shortened sequence to SizedVec::from_iter, whose length assertion fires.
---
 src/core/signal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..6c22b17 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        let value: Option<Vec<_>> = self.iter().map(|v| v.get_value()).collect();
+        value.map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +73,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let value: Option<Vec<_>> = self.iter().map(|v| v.as_const()).collect();
+        value.map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From ab465d2c794d22a694bf1448882a2454ee0ca644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 03/14] fix: SizedVec deserialization accepted sequences of the
 wrong length

---
 src/core/sizedvec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..5f6f2dd 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,12 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() == L::USIZE {
+            Ok(SizedVec(v, PhantomData))
+        } else {
+            Err(Error::invalid_length(v.len(), &"sequence of the declared length"))
+        }
     }
 }
 
-- 
2.43.0


From c32dd5264fed30921a0fff1ca34585968cfcbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 04/14] fix: Num::from(i32::MIN) was wrong and
 Num::from(i64::MIN) could panic

abs() overflows for the minimum value: a panic in debug builds, and in
release builds i32::MIN was sign-extended to 64 bits.
---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..4520cfa 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.wrapping_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = (n as i64).abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From 38ac07ae0c666684ad0671de21889cdcbaacd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 05/14] fix: c_comp_constant ignored the high bits of constants
 wider than the signal

For a constant with set bits above the width of the compared signal the
comparison was performed against the truncated constant.
---
 src/circuit/bitify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..f7a9bbe 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -89,6 +89,11 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
         k = k.double();
     }
 
+    // the constant does not fit into the signal, so the signal is always less
+    if ct_bits.any(|b| b) {
+        return CBool::c_false(cs);
+    }
+
     k -= Num::one();
 
     acc = acc + k;
-- 
2.43.0


From e16c0d66de27f70972b8578cc2c361473c86f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 06/14] fix: constrain allocated boolean signals to be bits

CBool::alloc left the witness unconstrained, so a circuit that allocates a
merkle proof and computes its root accepted a forged proof for any leaf
(choose sibling and a non-boolean path element to hit any pair of children).
The explicit assertion in c_into_bits_le becomes redundant.
---
 src/circuit/bitify.rs | 1 -
 src/circuit/bool.rs   | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index f7a9bbe..57933e3 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -37,7 +37,6 @@ pub fn c_into_bits_le<'a, CS: ConstraintSystem>(
             for i in 1..limit {
                 k = k.double();
                 let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
-                s.assert();
                 remained_signal -= &s.0 * k;
                 bits[i] = s;
             }
diff --git a/src/circuit/bool.rs b/src/circuit/bool.rs
index 2e9be42..2e03576 100644
--- a/src/circuit/bool.rs
+++ b/src/circuit/bool.rs
@@ -33,7 +33,9 @@ impl<'a, CS: ConstraintSystem> Signal<'a, CS> for CBool<'a, CS> {
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-        CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()))
+        let res = CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()));
+        res.assert();
+        res
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
-- 
2.43.0


From 9d7aed7137ef654c365f73738a937b13822ff65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 07/14] fix: auxiliary variables were counted and indexed as
 public inputs

---
 src/core/cs.rs             | 4 ++--
 src/helpers/groth16/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/cs.rs b/src/core/cs.rs
index f5c70ad..1159059 100644
--- a/src/core/cs.rs
+++ b/src/core/cs.rs
@@ -56,10 +56,10 @@ impl<F: Field> ConstraintSystem for TestCS<F> {
     type F = F;
 
     fn alloc(&self, v: Option<Num<Self::F>>) -> Index {
-        let mut naux_ref = self.ninputs.borrow_mut();
+        let mut naux_ref = self.naux.borrow_mut();
         let naux = *naux_ref;
         *naux_ref += 1;
-        let index = Index::Input(naux);
+        let index = Index::Aux(naux);
         if v.is_some() {
             (*self.variables.borrow_mut()).insert(index, v.unwrap());
         }
diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..69b338f 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -299,7 +299,7 @@ impl<BE: bellman::pairing::Engine, BCS: bellman::ConstraintSystem<BE>> Constrain
     type F = BE::Fr;
 
     fn alloc(&self, value: Option<Num<Self::F>>) -> Index {
-        let mut naux_ref = self.ninputs.borrow_mut();
+        let mut naux_ref = self.naux.borrow_mut();
         let naux = *naux_ref;
         *naux_ref += 1;
         self.bcs
-- 
2.43.0


From fcf948feeeb451dd299d1a79f501ae4a09ab2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:04 +0000
Subject: [PATCH 08/14] fix: a truncated verifying key was read as a shorter
 valid key

TruncatedVerifyingKey::read dropped a trailing partial point and swallowed
every I/O error, returning a key with missing public input elements.
---
 src/helpers/groth16/verifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..2d2ff44 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -160,8 +160,15 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
             })?;
 
         let mut ic = vec![];
-
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        let mut ic_data = vec![];
+        reader.read_to_end(&mut ic_data)?;
+
+        let g1_size = <E::G1Affine as CurveAffine>::Compressed::size();
+        for chunk in ic_data.chunks(g1_size) {
+            if chunk.len() != g1_size {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
+            g1_repr.as_mut().copy_from_slice(chunk);
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-- 
2.43.0


From 35e2a9e4c61976e6ec423e503eb42b2fc28590a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:05 +0000
Subject: [PATCH 09/14] fix: BN254 G2 points outside the prime order subgroup
 were accepted

The BLS12-381 conversions already checked the subgroup; the BN254 ones and
the binary readers (the underlying decompression does not check it for
BN254) accepted any point of the twist.
---
 src/helpers/groth16/mod.rs      |  7 ++++++-
 src/helpers/groth16/prover.rs   | 14 +++++++++++---
 src/helpers/groth16/verifier.rs | 11 +++++++++++
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 69b338f..a16e6c4 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
diff --git a/src/helpers/groth16/prover.rs b/src/helpers/groth16/prover.rs
index 64a35b0..58b1c84 100644
--- a/src/helpers/groth16/prover.rs
+++ b/src/helpers/groth16/prover.rs
@@ -1,12 +1,12 @@
 use std::io::{self, Read, Write};
 
 use bellman::{self, SynthesisError};
-use pairing::{bls12_381, bn256, Engine};
+use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
 use serde::{Deserialize, Serialize};
 
 use crate::{
     core::cs::Circuit,
-    core::field::Field,
+    core::field::{Field, PrimeField},
     core::osrng::OsRng,
     helpers::groth16::Groth16CS,
     helpers::groth16::{G1PointData, G2PointData},
@@ -76,7 +76,15 @@ impl Proof<bn256::Bn256> {
     }
 
     pub fn read<R: Read>(reader: R) -> io::Result<Self> {
-        Ok(Self(bellman::groth16::Proof::read(reader)?))
+        let proof = bellman::groth16::Proof::<bn256::Bn256>::read(reader)?;
+        // decompression of bn256 points does not check the subgroup
+        if !proof.b.mul(bn256::Fr::char()).is_zero() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point should be in subgroup",
+            ));
+        }
+        Ok(Self(proof))
     }
 }
 
diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 2d2ff44..5f9df01 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -159,6 +159,17 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                 }
             })?;
 
+        // decompression of bn256 points does not check the subgroup
+        if [beta_g2, gamma_g2, delta_g2]
+            .iter()
+            .any(|p| !p.mul(E::Fr::char()).is_zero())
+        {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point should be in subgroup",
+            ));
+        }
+
         let mut ic = vec![];
         let mut ic_data = vec![];
         reader.read_to_end(&mut ic_data)?;
-- 
2.43.0


From 1e26281ef97f5e99a5b02382e13b5630c6044e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:07 +0000
Subject: [PATCH 10/14] fix: square roots in the BN254 jubjub scalar field
 failed

The declared generator 7 is a quadratic residue, so the derived root of
unity had the wrong order and Num::<Fs>::sqrt panicked, hung or returned
wrong roots. 31 is the smallest primitive root.
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From 8354a4d3fe25f40d1c142adfaa1ec32638bf9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:32 +0000
Subject: [PATCH 11/14] fix: the point at infinity read from point data was not
 equal to the point at infinity

---
 src/helpers/groth16/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index a16e6c4..f27871a 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -130,6 +130,9 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
@@ -159,6 +162,9 @@ impl Into<bn256::G1Affine> for G1PointData<bn256::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF),
             "point should be in curve"
@@ -191,6 +197,9 @@ impl Into<bls12_381::G2Affine> for G2PointData<bls12_381::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF_FQ2),
             "point should be in curve"
@@ -220,6 +229,9 @@ impl Into<bls12_381::G1Affine> for G1PointData<bls12_381::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF),
             "point should be in curve"
-- 
2.43.0


From 9076e3cedf112cdd554db0bfafb5a26cc7fef0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 12/14] fix: generated Solidity verifier did not compile for
 keys with small G2 coordinates

An array literal takes the smallest type that fits its elements, so a pair of
coordinates below 2^248 (or a point at infinity) became a uint248[2] (uint8[2]),
which does not convert to the uint256[2] of G2Point.
---
 src/helpers/groth16/ethereum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index 07f2ce3..d6b28f8 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -201,7 +201,7 @@ contract Verifier {
 
     fn stringify_g2(p: &G2PointData<Fq>) -> String {
         format!(
-            "[{}, {}], [{}, {}]",
+            "[uint256({}), {}], [uint256({}), {}]",
             p.0 .0.to_string(),
             p.0 .1.to_string(),
             p.1 .0.to_string(),
-- 
2.43.0


From 9aa14bcb22278397eb3b8bfb37d7adaa66dc89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:20 +0000
Subject: [PATCH 13/14] fix: generated Solidity verifier did not compile for
 keys without public inputs

Solidity refuses arrays of length zero.
---
 src/helpers/groth16/ethereum.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index d6b28f8..4071957 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -155,8 +155,8 @@ contract Verifier {
         *          above and the public inputs
         */
     function verifyProof(
-        uint256[8] memory p,
-        uint256[<%vk_input_length%>] memory input
+        uint256[8] memory p<%inputs_open%>,
+        uint256[<%vk_input_length%>] memory input<%inputs_close%>
     ) public view returns (bool) {
  
         // Make sure that each element in the proof is less than the prime q
@@ -175,11 +175,11 @@ contract Verifier {
         Pairing.G1Point memory vk_x = Pairing.G1Point(0, 0);
         vk_x = Pairing.plus(vk_x, vk.IC[0]);
 
-        // Make sure that every input is less than the snark scalar field
+        <%inputs_open%>// Make sure that every input is less than the snark scalar field
         for (uint256 i = 0; i < input.length; i++) {
             require(input[i] < SNARK_SCALAR_FIELD, "verifier-gte-snark-scalar-field");
             vk_x = Pairing.plus(vk_x, Pairing.scalar_mul(vk.IC[i + 1], input[i]));
-        }
+        }<%inputs_close%>
 
         return Pairing.pairing(
             Pairing.negate(_proof.A),
@@ -218,6 +218,15 @@ contract Verifier {
     tpl = tpl.replace("<%vk_ic_length%>", &vk.ic.len().to_string());
     tpl = tpl.replace("<%vk_input_length%>", &(vk.ic.len() - 1).to_string());
 
+    // Solidity has no zero-length arrays: without public inputs comment their handling out
+    let (inputs_open, inputs_close) = if vk.ic.len() == 1 {
+        ("/* no public inputs ", " */")
+    } else {
+        ("", "")
+    };
+    tpl = tpl.replace("<%inputs_open%>", inputs_open);
+    tpl = tpl.replace("<%inputs_close%>", inputs_close);
+
     let mut vi = String::from("");
     for i in 0..vk.ic.len() {
         vi = format!(
-- 
2.43.0


From 0c29cfce71ab1c6aa3b083520e27d2166d4b1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:31 +0000
Subject: [PATCH 14/14] fix: generate-verifier reported success after writing
 only part of the contract

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 48fde1d..3bf96c1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -374,7 +374,7 @@ macro_rules! groth16_ethereum_bindings {
                 let sol_str = generate_sol_data(&vk);
                 File::create(o.solidity)
                     .unwrap()
-                    .write(&sol_str.into_bytes())
+                    .write_all(&sol_str.into_bytes())
                     .unwrap();
                 println!("solidity verifier generated")
             }
-- 
2.43.0

