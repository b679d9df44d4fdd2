From ef787504a96dd2bc24826ed4fb3380e556cc5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 01/29] fix: propagate the last carry of the cross products in
 limb squaring

---
 zkstd/src/arithmetic/limbs/bits_256/normal.rs |  4 +++-
 zkstd/src/arithmetic/limbs/bits_384/normal.rs | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_256/normal.rs b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
index cdfafad..f5dd3ae 100644
--- a/zkstd/src/arithmetic/limbs/bits_256/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
@@ -136,7 +136,9 @@ pub const fn square(a: [u64; 4], p: [u64; 4], inv: u64) -> [u64; 4] {
     let (l3, c) = (s as u64, (s >> 64) as u64);
     let s = l4 as u128 + c as u128;
     let (l4, c) = (s as u64, (s >> 64) as u64);
-    let l5 = l5.wrapping_add(c);
+    let s = l5 as u128 + c as u128;
+    let (l5, c) = (s as u64, (s >> 64) as u64);
+    let l6 = l6.wrapping_add(c);
 
     let l7 = l6 >> 63;
     let l6 = (l6 << 1) | (l5 >> 63);
diff --git a/zkstd/src/arithmetic/limbs/bits_384/normal.rs b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
index 61801ae..1b9b70b 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
@@ -225,13 +225,21 @@ pub const fn square(a: [u64; 6], p: [u64; 6], inv: u64) -> [u64; 6] {
     let (l7, c) = (s as u64, (s >> 64) as u64);
     let s = l8 as u128 + c as u128;
     let (l8, c) = (s as u64, (s >> 64) as u64);
-    let l9 = l9.wrapping_add(c);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let s = a[2] as u128 * a[3] as u128 + l5 as u128;
     let (l5, c) = (s as u64, (s >> 64) as u64);
     let s = l6 as u128 + c as u128;
     let (l6, c) = (s as u64, (s >> 64) as u64);
-    let l7 = l7.wrapping_add(c);
+    let s = l7 as u128 + c as u128;
+    let (l7, c) = (s as u64, (s >> 64) as u64);
+    let s = l8 as u128 + c as u128;
+    let (l8, c) = (s as u64, (s >> 64) as u64);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let l11 = l10 >> 63;
     let l10 = (l10 << 1) | (l9 >> 63);
-- 
2.43.0


From 3410860123eb310e7442142b2d78af4edbff9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 02/29] fix: make the by-reference operators of extension
 fields compute the operation they name

---
 zkstd/src/macros/extension_field/group.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 41d2aaf..a815f21 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -90,7 +90,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn add(self, rhs: &'b $extension_field) -> Self {
-                self + rhs
+                self + *rhs
             }
         }
 
@@ -136,7 +136,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                *self * *rhs
+                *self - *rhs
             }
         }
 
@@ -144,7 +144,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                self * *rhs
+                self - *rhs
             }
         }
 
@@ -152,7 +152,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: $extension_field) -> $extension_field {
-                *self * rhs
+                *self - rhs
             }
         }
 
@@ -181,7 +181,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                *self + *rhs
+                *self * *rhs
             }
         }
 
@@ -189,7 +189,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                self + *rhs
+                self * *rhs
             }
         }
 
-- 
2.43.0


From 0e6faf33697ee7d07c888f8d6cbb26d1a1a8296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 03/29] fix: negation of a field element reference no longer
 recurses forever

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index f183321..6510f24 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -128,7 +128,7 @@ macro_rules! group_operation {
             type Output = $field;
 
             fn neg(self) -> $field {
-                -self
+                -*self
             }
         }
 
-- 
2.43.0


From 6a5d68d454ca7559946ffcc30e7d9fd55e4a3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:36 +0000
Subject: [PATCH 04/29] fix: affine minus projective by reference subtracts
 instead of adding

---
 zkstd/src/macros/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 236bad1..a0224f1 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -159,7 +159,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                *self + *rhs
+                *self - *rhs
             }
         }
 
@@ -167,7 +167,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                &self + rhs
+                &self - rhs
             }
         }
 
@@ -175,7 +175,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: $extended) -> $extended {
-                self + &rhs
+                self - &rhs
             }
         }
 
-- 
2.43.0


From 732812d7feb28809891a8b119241e95bc24a4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 05/29] fix: doubling the affine identity gives the identity

---
 zkstd/src/arithmetic/points/weierstrass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/arithmetic/points/weierstrass.rs b/zkstd/src/arithmetic/points/weierstrass.rs
index 356f6d6..73a07c3 100644
--- a/zkstd/src/arithmetic/points/weierstrass.rs
+++ b/zkstd/src/arithmetic/points/weierstrass.rs
@@ -37,6 +37,10 @@ pub fn add_affine_point<A: BNAffine>(lhs: A, rhs: A) -> A::Extended {
 /// weierstrass affine coordinate doubling
 #[inline(always)]
 pub fn double_affine_point<A: BNAffine>(point: A) -> A::Extended {
+    if point.is_identity() {
+        return A::Extended::ADDITIVE_IDENTITY;
+    }
+
     // Algorithm 9, https://eprint.iacr.org/2015/1060.pdf
     let b3 = <A as BNCurve>::PARAM_3B;
     let (x, y) = (point.get_x(), point.get_y());
-- 
2.43.0


From 361b41fbf220eec0ffb12f4868e36f6fc023a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 06/29] fix: the additive identity of a prime field is zero

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index 6510f24..809f532 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -4,7 +4,7 @@ macro_rules! group_operation {
     ($field:ident, $p:ident, $g:ident, $r:ident, $r2:ident, $r3:ident, $inv:ident) => {
         impl Group for $field {
             const ADDITIVE_GENERATOR: Self = $field($g);
-            const ADDITIVE_IDENTITY: Self = $field($r);
+            const ADDITIVE_IDENTITY: Self = Self::zero();
 
             fn invert(self) -> Option<Self> {
                 match invert(self.0, little_fermat($p), $r, $p, $inv) {
-- 
2.43.0


From d11a0676cf9b9a200a7e76648871298008f86090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 07/29] fix: ff generator of Fq is in Montgomery form and its
 two-adicity is one

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index aad5d99..bf19c16 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -277,8 +277,8 @@ mod fq {
         const NUM_BITS: u32 = 254;
         const CAPACITY: u32 = 253;
         const TWO_INV: Self = TWO_INV;
-        const MULTIPLICATIVE_GENERATOR: Self = Fq(GENERATOR);
-        const S: u32 = 0;
+        const MULTIPLICATIVE_GENERATOR: Self = Fq::to_mont_form(GENERATOR);
+        const S: u32 = 1;
         const ROOT_OF_UNITY: Self = ROOT_OF_UNITY;
         const ROOT_OF_UNITY_INV: Self = ROOT_OF_UNITY_INV;
         const DELTA: Self = DELTA;
-- 
2.43.0


From 2b323b3b3a07ca37e54669fe472bbb5c18a7b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 08/29] fix: ff inversion of zero is none

---
 bn254/src/ff_compat.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index bf19c16..ffc53f8 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -64,8 +64,8 @@ mod fr {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            let tmp = <Self as zkstd::common::Group>::invert(*self);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
@@ -231,8 +231,8 @@ mod fq {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            let tmp = <Self as zkstd::common::Group>::invert(*self);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
-- 
2.43.0


From 3187f30c31d2eed3ef36e97ddf5439f6217f3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 09/29] fix: ff decoding rejects non-canonical representations

---
 bn254/src/ff_compat.rs | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index ffc53f8..a7ad994 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -1,9 +1,8 @@
 mod fr {
-    use crate::fr::{INV, MODULUS, R2, S};
+    use crate::fr::{MODULUS, S};
     use crate::{Fr, MULTIPLICATIVE_GENERATOR, ROOT_OF_UNITY};
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const ROOT_OF_UNITY_INV: Fr = Fr::to_mont_form([
@@ -77,16 +76,8 @@ mod fr {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fr([0, 0, 0, 0]);
-
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fr(to_mont_form(tmp.0, R2, MODULUS, INV));
-
-            CtOption::new(tmp, Choice::from(1))
+            let tmp = Self::from_bytes(repr);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
@@ -161,11 +152,10 @@ mod fr {
 }
 
 mod fq {
-    use crate::fq::{GENERATOR, INV, MODULUS, R2};
+    use crate::fq::{GENERATOR, MODULUS};
     use crate::Fq;
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const TWO_INV: Fq = Fq::to_mont_form([
@@ -244,16 +234,8 @@ mod fq {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fq([0, 0, 0, 0]);
-
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fq(to_mont_form(tmp.0, R2, MODULUS, INV));
-
-            CtOption::new(tmp, Choice::from(1))
+            let tmp = Self::from_bytes(repr);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From bce5bde42f4247b9ce2be8afbef8fca882e9118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 10/29] fix: ff square roots terminate

---
 bn254/src/ff_compat.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index a7ad994..6e6cd0f 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -67,6 +67,11 @@ mod fr {
             CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
+        fn sqrt(&self) -> CtOption<Self> {
+            let tmp = Fr::sqrt(self);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
+        }
+
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
@@ -225,6 +230,11 @@ mod fq {
             CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
         }
 
+        fn sqrt(&self) -> CtOption<Self> {
+            let tmp = Fq::sqrt(self);
+            CtOption::new(tmp.unwrap_or_default(), Choice::from(tmp.is_some() as u8))
+        }
+
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
-- 
2.43.0


From 7db594f88c9e966cee315c0ab62299912ce8fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 11/29] fix: two-adicity of the scalar field is 28

---
 bn254/src/fr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index ca2c17b..d4980f2 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -64,7 +64,7 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
     0x03ddb9f5166d18b7,
 ]);
 
-pub const TWO_ADACITY: u32 = 32;
+pub const TWO_ADACITY: u32 = 28;
 
 /// Bn254 curve scalar field
 #[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
-- 
2.43.0


From b0c074e43fde1cd925baeda5de0e1bb7024bad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 12/29] fix: twisted Edwards on-curve test accepted any y for x
 = 0

---
 zkstd/src/macros/curve/edwards/group.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/macros/curve/edwards/group.rs b/zkstd/src/macros/curve/edwards/group.rs
index 8948ae1..6b828be 100644
--- a/zkstd/src/macros/curve/edwards/group.rs
+++ b/zkstd/src/macros/curve/edwards/group.rs
@@ -43,13 +43,9 @@ macro_rules! twisted_edwards_affine_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.x.is_zero() {
-                    true
-                } else {
-                    let xx = self.x.square();
-                    let yy = self.y.square();
-                    yy == $range::one() + Self::PARAM_D * xx * yy + xx
-                }
+                let xx = self.x.square();
+                let yy = self.y.square();
+                yy == $range::one() + Self::PARAM_D * xx * yy + xx
             }
 
             fn get_x(&self) -> Self::Base {
-- 
2.43.0


From e5d77588eb0afc569f9c4f90992b4ecf8bd59ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 13/29] fix: subgroup membership tests of G1 and G2 rejected
 valid points

---
 bn254/src/g1.rs     | 56 +++++++++-------------------------
 bn254/src/g2.rs     | 74 ++++++++-------------------------------------
 bn254/src/params.rs |  2 +-
 3 files changed, 28 insertions(+), 104 deletions(-)

diff --git a/bn254/src/g1.rs b/bn254/src/g1.rs
index 3974d1d..d1d50a0 100644
--- a/bn254/src/g1.rs
+++ b/bn254/src/g1.rs
@@ -1,4 +1,5 @@
-use crate::params::{BN_X, BN_X_IS_NEGATIVE, G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
+use crate::fr::MODULUS;
+use crate::params::{G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
 use crate::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
@@ -6,13 +7,6 @@ use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
 
-pub const BETA: Fq = Fq([
-    0x30f1361b798a64e8,
-    0xf3b8ddab7ece5a2a,
-    0x16a8ca3ac61577f7,
-    0xc26a2ff874fd029b,
-]);
-
 /// The projective form of coordinate
 #[derive(Debug, Clone, Copy, Decode, Encode)]
 pub struct G1Affine {
@@ -21,15 +15,6 @@ pub struct G1Affine {
     is_infinity: bool,
 }
 
-fn endomorphism(p: &G1Affine) -> G1Affine {
-    // Endomorphism of the points on the curve.
-    // endomorphism_p(x,y) = (BETA * x, y)
-    // where BETA is a non-trivial cubic root of unity in Fq.
-    let mut res = *p;
-    res.x *= BETA;
-    res
-}
-
 impl G1Affine {
     pub const RAW_SIZE: usize = 97;
 
@@ -59,14 +44,8 @@ impl G1Affine {
     }
 
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 6 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that endomorphism_p(P) == -[x^2] P
-
-        let minus_x_squared_times_p = G1Projective::from(*self).mul_by_x().mul_by_x().neg();
-        let endomorphism_p = endomorphism(self);
-        minus_x_squared_times_p == G1Projective::from(endomorphism_p)
+        // the subgroup is the kernel of multiplication by its prime order
+        G1Projective::from(*self).mul_by_order().is_identity()
     }
 }
 
@@ -123,25 +102,18 @@ pub struct G1Projective {
 }
 
 impl G1Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G1Projective {
-        let mut xself = G1Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BN254 we can just skip the first bit.
-        let mut x = BN_X >> 1;
-        let mut tmp = *self;
-        while x != 0 {
-            tmp = tmp.double();
-
-            if x % 2 == 1 {
-                xself += tmp;
+    /// Multiply `self` by the order of the scalar field, using double and add.
+    fn mul_by_order(&self) -> G1Projective {
+        let mut res = G1Projective::ADDITIVE_IDENTITY;
+        for limb in MODULUS.iter().rev() {
+            for i in (0..64).rev() {
+                res = res.double();
+                if (limb >> i) & 1 == 1 {
+                    res += *self;
+                }
             }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
         }
-        xself
+        res
     }
 
     /// Converts a batch of `G1Projective` elements into `G1Affine` elements. This
diff --git a/bn254/src/g2.rs b/bn254/src/g2.rs
index fb7c64f..6a4321f 100644
--- a/bn254/src/g2.rs
+++ b/bn254/src/g2.rs
@@ -1,6 +1,6 @@
 use crate::fq::Fq;
 use crate::fqn::Fq2;
-use crate::fr::Fr;
+use crate::fr::{Fr, MODULUS};
 use crate::pairing::{SIX_U_PLUS_2_NAF, XI_TO_Q_MINUS_1_OVER_2};
 use crate::params::*;
 use core::borrow::Borrow;
@@ -24,12 +24,8 @@ impl G2Affine {
     /// exists within the $q$-order subgroup $\mathbb{G}_2$. This should always return true
     /// unless an "unchecked" API was used.
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 4 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that psi(P) == [x] P
-        let p = G2Projective::from(*self);
-        p.psi() == p.mul_by_x()
+        // the subgroup is the kernel of multiplication by its prime order
+        G2Projective::from(*self).mul_by_order().is_identity()
     }
 }
 
@@ -86,62 +82,18 @@ pub struct G2Projective {
 }
 
 impl G2Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G2Projective {
-        let mut xself = G2Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BLS12-381 we can just skip the first bit.
-        // TODO: need to test conversion to bytes and back
-        let mut x = BN_X >> 1;
-        let mut acc = *self;
-        while x != 0 {
-            acc = acc.double();
-            if x % 2 == 1 {
-                xself += acc;
+    /// Multiply `self` by the order of the scalar field, using double and add.
+    fn mul_by_order(&self) -> G2Projective {
+        let mut res = G2Projective::ADDITIVE_IDENTITY;
+        for limb in MODULUS.iter().rev() {
+            for i in (0..64).rev() {
+                res = res.double();
+                if (limb >> i) & 1 == 1 {
+                    res += *self;
+                }
             }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
-        }
-        xself
-    }
-
-    fn psi(&self) -> G2Projective {
-        // 1 / ((u+1) ^ ((q-1)/3))
-        let psi_coeff_x = Fq2([
-            Fq::zero(),
-            Fq([
-                0x890dc9e4867545c3,
-                0x2af322533285a5d5,
-                0x50880866309b7e2c,
-                0xa20d1b8c7e881024,
-            ]),
-        ]);
-        // 1 / ((u+1) ^ (p-1)/2)
-        let psi_coeff_y = Fq2([
-            Fq([
-                0x3e2f585da55c9ad1,
-                0x4294213d86c18183,
-                0x382844c88b623732,
-                0x92ad2afd19103e18,
-            ]),
-            Fq([
-                0x7bcfa7a25aa30fda,
-                0xdc17dec12a927e7c,
-                0x2f088dd86b4ebef1,
-                0xd1ca2087da74d4a7,
-            ]),
-        ]);
-
-        G2Projective {
-            // x = frobenius(x)/((u+1)^((p-1)/3))
-            x: self.x.frobenius_map() * psi_coeff_x,
-            // y = frobenius(y)/(u+1)^((p-1)/2)
-            y: self.y.frobenius_map() * psi_coeff_y,
-            // z = frobenius(z)
-            z: self.z.frobenius_map(),
         }
+        res
     }
 }
 
diff --git a/bn254/src/params.rs b/bn254/src/params.rs
index af39aab..6fca371 100644
--- a/bn254/src/params.rs
+++ b/bn254/src/params.rs
@@ -2,7 +2,7 @@
 use crate::{Fq, Fq2};
 
 pub const BN_X: u64 = 4965661367192848881;
-pub const BN_X_IS_NEGATIVE: bool = true;
+pub const BN_X_IS_NEGATIVE: bool = false;
 
 // g1 curve parameters
 pub(crate) const G1_GENERATOR_X: Fq = Fq::one();
-- 
2.43.0


From cdf6a2ab713d92595ae9fef708a5ddeec489fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 14/29] fix: the outputs of the not and and gadgets were not
 constrained

---
 zkstd/src/circuit/gadget/binary.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..321174a 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -46,6 +47,13 @@ impl BinaryAssignment {
 
         cs.w.push(new_val);
 
+        // constrain 1 - b = not_b
+        cs.sub_gate(
+            &SparseRow::one(),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
+
         Self(wire)
     }
 
@@ -61,6 +69,13 @@ impl BinaryAssignment {
 
         cs.w.push(a_and_b);
 
+        // constrain a * b = a_and_b
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
+
         Self(wire)
     }
 
-- 
2.43.0


From a1fb8a0670026b3838a98e9b4cbdea3c1026963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 15/29] fix: a boolean witness was not constrained to be a bit

---
 zkstd/src/circuit/gadget/binary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index 321174a..d4f9a11 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -33,6 +33,10 @@ impl BinaryAssignment {
         let wire = cs.private_wire();
         cs.w.push(C::Scalar::from(bit as u64));
 
+        // constrain bit * bit = bit
+        let row = SparseRow::from(wire);
+        cs.mul_gate(&row, &row, &row);
+
         Self(wire)
     }
 
-- 
2.43.0


From e4eb7131e1fe149c9314541adc304af49681f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 16/29] fix: inputize did not constrain the public wire to the
 given value

---
 zkstd/src/circuit/gadget/field.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..f5ba215 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -30,7 +30,10 @@ impl<F: PrimeField> FieldAssignment<F> {
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
 
-        Self(SparseRow::from(wire))
+        let instance = Self(SparseRow::from(wire));
+        Self::enforce_eq(cs, &witness, &instance);
+
+        instance
     }
 
     pub fn value<C: CircuitDriver<Scalar = F>>(&self, cs: &R1cs<C>) -> F {
-- 
2.43.0


From 20b998737b817e35a4418fb749975049a177547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 17/29] fix: bit decomposition did not bind the bits to the
 decomposed value

---
 zkstd/src/circuit/gadget/field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index f5ba215..cf0edbb 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -172,15 +172,13 @@ impl<F: PrimeField> FieldAssignment<F> {
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // All bits together are the canonical representation of x
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
 
-        bit_repr
+        // TODO: Decide on how to store bits. LE or BE
+        bit_repr.into_iter().skip(256 - num_bits).collect()
     }
 
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
-- 
2.43.0


From ed02590076ab42ae60f00095318431bcf7e949bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 18/29] fix: the inverse used by descale was not constrained

---
 zkstd/src/circuit/gadget/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..e7da856 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -35,6 +35,9 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        // constrain z * inv = (z != 0)
+        let z_inv = FieldAssignment::mul(cs, &self.z, &inv);
+        FieldAssignment::enforce_eq(cs, &z_inv, &FieldAssignment::from(&take_value));
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From ecc274832821163772986531302e331ba101b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 19/29] fix: range check against zero panicked

---
 zkstd/src/circuit/gadget/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index cf0edbb..51c302c 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -106,6 +106,10 @@ impl<F: PrimeField> FieldAssignment<F> {
             FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
         }
 
+        if c_bits.is_empty() {
+            return;
+        }
+
         let a_bits = a_bits
             .iter()
             .skip(a_bits.len() - c_bits.len())
-- 
2.43.0


From e554ff9b8d8f1ef6a7899e090b1769fe543f4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 20/29] fix: size the Nova commitment key for the witness and
 never truncate a committed vector

---
 nova/src/ivc.rs      | 8 +++++++-
 nova/src/pedersen.rs | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nova/src/ivc.rs b/nova/src/ivc.rs
index 2772809..27746a6 100644
--- a/nova/src/ivc.rs
+++ b/nova/src/ivc.rs
@@ -300,11 +300,17 @@ where
         circuit_secondary.generate(&mut cs);
         let r1cs_shape_secondary = R1csShape::from(cs);
 
-        let k = r1cs_shape_primary.m().next_power_of_two().trailing_zeros();
+        // the key commits to error vectors of length m and to witnesses
+        let k = r1cs_shape_primary
+            .m()
+            .max(r1cs_shape_primary.m_l_1())
+            .next_power_of_two()
+            .trailing_zeros();
         let ck_primary = PedersenCommitment::<E1::Affine>::new(k.into(), rng);
 
         let k = r1cs_shape_secondary
             .m()
+            .max(r1cs_shape_secondary.m_l_1())
             .next_power_of_two()
             .trailing_zeros();
         let ck_secondary = PedersenCommitment::<E2::Affine>::new(k.into(), rng);
diff --git a/nova/src/pedersen.rs b/nova/src/pedersen.rs
index 51b4049..1903c4a 100644
--- a/nova/src/pedersen.rs
+++ b/nova/src/pedersen.rs
@@ -13,6 +13,7 @@ impl<C: BNAffine> PedersenCommitment<C> {
     }
 
     pub(crate) fn commit(&self, m: &DenseVectors<C::Scalar>) -> C {
+        assert!(m.len() <= self.g.len(), "commitment key is too short");
         (m.iter()
             .zip(self.g.iter())
             .fold(C::Extended::ADDITIVE_IDENTITY, |sum, (v, e)| sum + *e * v))
-- 
2.43.0


From 600bd099974c4bcb9c7a78274686e67b49cd098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 21/29] fix: reject Nova assignments whose lengths do not match
 the shape

---
 nova/src/relaxed_r1cs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..ea00841 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -78,6 +78,11 @@ impl<C: CircuitDriver> R1csShape<C> {
     }
 
     ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E
+    /// the assignment has exactly one value for every wire of the shape
+    fn has_lengths(&self, x: &DenseVectors<C::Scalar>, w: &DenseVectors<C::Scalar>) -> bool {
+        x.len() as u64 == self.instance_length && w.len() as u64 == self.witness_length
+    }
+
     pub fn is_sat_relaxed(
         &self,
         instance: &RelaxedR1csInstance<C>,
@@ -93,6 +98,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         } = instance;
         let RelaxedR1csWitness { w, e } = witness;
 
+        if !self.has_lengths(x, w) || e.len() as u64 != *m {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![*u], x.get(), w.get()].concat());
         // A · Z
@@ -125,6 +134,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         let R1csInstance { commit_w, x } = instance;
         let R1csWitness { w } = witness;
 
+        if !self.has_lengths(x, w) {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![C::Scalar::one()], x.get(), w.get()].concat());
         // A · Z
-- 
2.43.0


From 14cd81d32fcd033208cb6e35574f8dea508b6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:06 +0000
Subject: [PATCH 22/29] fix: check the folded Nova commitments against the
 running witnesses

---
 nova/src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..941580c 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -77,5 +77,10 @@ where
                 &u_single_secondary,
                 &w_single_secondary,
             )
+            // the folded commitments open to the running witnesses
+            && u_range_primary.commit_w == pp.ck_primary.commit(&w_range_primary.w)
+            && u_range_primary.commit_e == pp.ck_primary.commit(&w_range_primary.e)
+            && u_range_secondary.commit_w == pp.ck_secondary.commit(&w_range_secondary.w)
+            && u_range_secondary.commit_e == pp.ck_secondary.commit(&w_range_secondary.e)
     }
 }
-- 
2.43.0


From 7635d2516fb2e9b073baed5ffe1da373ba702522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 23/29] fix: compute the powers of tau over the whole
 evaluation domain

---
 groth16/src/zksnark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..a5d1cee 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -37,10 +37,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From fadff051aadd3e8eef4ee4f93bcec96f4511c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:28 +0000
Subject: [PATCH 24/29] fix: circuits with a single constraint get a domain of
 two points

---
 groth16/src/prover.rs  | 2 +-
 groth16/src/zksnark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..27c6f9b 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,7 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index a5d1cee..18d30b7 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,7 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
-- 
2.43.0


From e50ba460b9c2d24c2c2546db645efd207491e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:46 +0000
Subject: [PATCH 25/29] fix: Gt::zero and Gt::random return elements of the
 target group

---
 bn254/src/gt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index 838b806..07e1e5c 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -16,13 +16,14 @@ impl Group for Gt {
     }
 
     fn random<R: RngCore>(rand: &mut R) -> Self {
-        Self(Fq12::random(rand))
+        // the final exponentiation maps onto the group of order r
+        Fq12::random(rand).final_exp()
     }
 }
 
 impl IntGroup for Gt {
     fn zero() -> Self {
-        Self(Fq12::zero())
+        Self::ADDITIVE_IDENTITY
     }
 }
 
-- 
2.43.0


From 18ac0b56f747327a2db04f5b2768e1ddb5c4fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:08 +0000
Subject: [PATCH 26/29] fix: enforce that step 0 of the augmented circuit
 starts from z_0

---
 nova/src/circuit/augmented.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c79892e..6760093 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -89,6 +89,9 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
         let not_base_case = FieldAssignment::is_neq(cs, &i, &zero);
 
         // base case
+        for (z_0, z_i) in z_0.iter().zip(z_i.iter()) {
+            FieldAssignment::conditional_enforce_equal(cs, z_0, z_i, &base_case);
+        }
         let u_range_next_base = if self.is_primary {
             u_dummy
         } else {
-- 
2.43.0


From 37512d347a546e2cf2c8db7cddb66ad90611472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 27/29] fix: make the public constants of the limb carry checks
 constants instead of free witnesses

---
 nova/src/gadget/big_nat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 51f486c..b92758c 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -250,12 +250,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             );
             accumulated_extra += max_word;
 
-            let target_base_ass = FieldAssignment::witness(cs, nat_to_f::<F>(&target_base));
+            let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
             let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
             let accumulated =
-                FieldAssignment::witness(cs, nat_to_f::<F>(&(&accumulated_extra % &target_base)));
-            let max_word = FieldAssignment::witness(cs, nat_to_f::<F>(max_word));
+                FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
+            let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
 
             FieldAssignment::enforce_eq_constant(
                 cs,
@@ -269,7 +269,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
                 FieldAssignment::range_check_bits(cs, &carry_decomposition, carry_bits as u64);
             } else {
                 let accumulated_extra_ass =
-                    FieldAssignment::witness(cs, nat_to_f(&accumulated_extra));
+                    FieldAssignment::constant(&nat_to_f(&accumulated_extra));
                 FieldAssignment::enforce_eq_constant(
                     cs,
                     &(&carry - &accumulated_extra_ass),
@@ -417,7 +417,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
         let mut limbs = vec![FieldAssignment::constant(&F::zero()); n_groups];
         let mut shift = FieldAssignment::constant(&F::one());
-        let limb_block = FieldAssignment::witness(cs, F::pow_of_2(self.params.limb_width as u64));
+        let limb_block = FieldAssignment::constant(&F::pow_of_2(self.params.limb_width as u64));
         for (i, limb) in self.limbs.iter().enumerate() {
             if i % limbs_per_group == 0 {
                 shift = FieldAssignment::constant(&F::one());
-- 
2.43.0


From b01d824165fd876f272fb5f4ca535ebea720bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:30 +0000
Subject: [PATCH 28/29] fix: bound the limbs of a field element and make their
 bits its canonical representation

---
 nova/src/gadget/big_nat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index b92758c..54e99ea 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -126,6 +126,8 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let bv = big_nat.decompose(cs);
         // (2) recompose bits and check if it equals n
         FieldAssignment::enforce_eq_bits(cs, f, &bv);
+        // (3) the bits are the canonical representation of n
+        FieldAssignment::range_check(cs, &bv, F::MODULUS - F::one());
 
         big_nat
     }
@@ -170,7 +172,13 @@ impl<F: PrimeField> BigNatAssignment<F> {
             .limbs
             .iter()
             .rev()
-            .map(|limb| FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width))
+            .map(|limb| {
+                let bits = FieldAssignment::to_bits::<C>(cs, limb, 256);
+                FieldAssignment::range_check_bits(cs, &bits, self.params.limb_width as u64);
+                bits.into_iter()
+                    .skip(256 - self.params.limb_width)
+                    .collect()
+            })
             .collect();
         let mut bits = Vec::new();
 
-- 
2.43.0


From 070f82291415b5a3cb87a378300b1a03983ee587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:16 +0000
Subject: [PATCH 29/29] fix: tie the folded inputs and the modulus of the
 folding circuit to the instance

---
 nova/src/circuit/nifs.rs   | 13 ++++++-------
 nova/src/gadget/big_nat.rs | 11 +++++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 2dd7888..c6d313b 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -2,7 +2,7 @@ use core::marker::PhantomData;
 use num_bigint::BigInt;
 use num_traits::Num;
 
-use crate::gadget::{f_to_nat, BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
+use crate::gadget::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
 use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
 use zkstd::common::{Group, IntGroup};
@@ -32,20 +32,19 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let r_t = commit_t.scalar_point(cs, &r);
         let e_fold = u_range.commit_e.add(&r_t, cs);
 
-        let r_bn = f_to_nat(&r.value(cs));
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
-        let m_bn_ass = BigNatAssignment::witness_from_big_int(cs, m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
+        let m_bn_ass = BigNatAssignment::constant(&m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
 
         // u_fold = U.u + r
         let u_fold = FieldAssignment::witness(cs, u_range.u.value(cs) + r.value(cs));
         FieldAssignment::enforce_eq_constant(cs, &(&(&u_fold - &u_range.u) - &r), &C::Base::zero());
 
         // Fold U.x0 + r * x0
-        let x0_single_bn = BigNatAssignment::witness_from_big_int(
+        let x0_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x0.value(cs)),
+            &u_single.x0,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
@@ -53,9 +52,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let x0_fold = u_range.x0.add(&r_x0).red_mod(cs, &m_bn_ass);
 
         // Fold U.x1 + r * x1
-        let x1_single_bn = BigNatAssignment::witness_from_big_int(
+        let x1_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x1.value(cs)),
+            &u_single.x1,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 54e99ea..1e2e722 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -110,6 +110,17 @@ impl<F: PrimeField> BigNatAssignment<F> {
         }
     }
 
+    /// A `BigNat` whose limbs are constants of the circuit
+    pub fn constant(num: &BigInt, limb_width: usize, n_limbs: usize) -> Self {
+        Self {
+            limbs: nat_to_limbs::<F>(num, limb_width, n_limbs)
+                .iter()
+                .map(FieldAssignment::constant)
+                .collect(),
+            params: BigNatParams::new(limb_width, n_limbs),
+        }
+    }
+
     /// Allocates a `BigNat` in the circuit with `n_limbs` limbs of width `limb_width` each.
     /// The `max_word` is guaranteed to be `(2 << limb_width) - 1`.
     /// The value is provided by an allocated number
-- 
2.43.0

