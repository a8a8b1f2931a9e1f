From e05f767e2821656ec965aca1e0769bc66cb97ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 1/8] fix: decaf_equal compares all sixteen limbs

---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From 4f6bfc4f0bfb4711e4347ac60ef19e6f49f11a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 2/8] fix: dsa_like_deserialize accepts exactly the values
 below the field prime

---
 src/bignumber.rs   | 4 +---
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..c78054e 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -628,9 +628,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> WORD_BITS;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From 31f16d2a821a46d7ebe3be7bcc5c679d50f66d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 3/8] fix: reject the encoding of x = 0 with the sign bit set

---
 src/extended_point.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..4889cec 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,7 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From 803e3255636b5d82773ab9a2b5acf68fe2179895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 4/8] fix: dsa_verify returns an error for a signature that is
 not 114 bytes

---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..567f932 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -37,6 +37,9 @@ pub fn hash_with_dom(input: &mut Vec<u8>, output: &mut [u8]) {
 // pub fn dsa_sign(sym: &[u8]) {}
 
 pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, LibgoldilockErrors> {
+    if sig.len() != 114 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let p: TwistedExtendedPoint;
     match eddsa_like_decode(pubkey) {
         Ok(point) => p = point,
-- 
2.43.0


From 5a94ab8328602c455f24835763a99fca15e58043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 5/8] fix: reject signatures whose S is not below the group
 order

---
 src/eddsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 567f932..0af24fe 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -98,6 +98,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    if encode(&responce_scalar) != sig2 {
+        return Err(LibgoldilockErrors::DecodeSignatureError);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 0e977e71220a50640ef930accb99930a9c657b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 6/8] fix: compute the challenge from the received public-key
 bytes

---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0af24fe..e6d04af 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -90,7 +90,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From 71a8fe7a007517ea5afc240182acf146769346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:53 +0000
Subject: [PATCH 7/8] fix: deserialising malformed hex returns an error instead
 of panicking

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..3a2222e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -184,7 +184,9 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SigningKey::from_slice(&key))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +210,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SecretKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +236,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(VerifyingKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0


From fc9aac346859fc593c80100f8f6637c2b655a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:52 +0000
Subject: [PATCH 8/8] hooks: re-export private items under --cfg verif_hooks

---
 src/extended_point.rs | 18 ++++++++++++++++++
 src/lib.rs            | 21 +++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 4889cec..c5016c4 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -606,6 +606,24 @@ pub fn precomputed_scalar_mul(s: Scalar) -> TwistedExtendedPoint {
     p
 }
 
+#[cfg(verif_hooks)]
+impl TwistedExtendedPoint {
+    pub fn verif_from_parts(x: BigNumber, y: BigNumber, z: BigNumber, t: BigNumber) -> Self {
+        TwistedExtendedPoint { x, y, z, t }
+    }
+
+    pub fn verif_parts(&self) -> [BigNumber; 4] {
+        [self.x, self.y, self.z, self.t]
+    }
+}
+
+#[cfg(verif_hooks)]
+impl SmvtControl {
+    pub fn verif_parts(&self) -> (i64, i64) {
+        (self.power, self.addend)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     // use crate::{constants32::{fieldBytes, bigOne, bigZero}};
diff --git a/src/lib.rs b/src/lib.rs
index 3a2222e..4d599ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,27 @@ mod karatsuba_32;
 mod karatsuba_square_32;
 mod scalar;
 
+/// Verification hooks: re-exports of private items, only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+pub mod verif {
+    pub mod bignumber {
+        pub use crate::bignumber::*;
+    }
+    pub mod scalar {
+        pub use crate::scalar::*;
+    }
+    pub mod extended_point {
+        pub use crate::extended_point::*;
+    }
+    pub mod eddsa {
+        pub use crate::eddsa::*;
+    }
+    pub mod tables {
+        pub use crate::decaf_combs_32::*;
+        pub use crate::decaf_wnaf_table::*;
+    }
+}
+
 use crate::errors::LibgoldilockErrors;
 use goldilocks::{ed448_derive_public, ed448_sign, hex_to_private_key};
 use rand::{CryptoRng, Rng};
-- 
2.43.0

