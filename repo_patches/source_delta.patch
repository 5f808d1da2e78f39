From 65b7bc7ebfdbac169e6b035a4762f6d3acdb38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 1/9] fix: return InvalidSignatureLengthError for a truncated
 signature

Verifying a signature shorter than 114 bytes panicked with an out-of-range
slice index instead of reporting the error that exists for it.
---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..a3a50f4 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -56,6 +56,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
     p2 = p2.point_scalar_mul(&scalar_four);
+    if sig.len() < 57 + 57 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let mut sig1: [u8; 57] = [0; 57];
     let mut sig2: [u8; 57] = [0; 57];
 
-- 
2.43.0


From 7a75b0bdadaed16a2e32b2f6e6a6659297cb2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 2/9] fix: accept a point encoding's y coordinate if and only
 if it is below p

The range check subtracted a modulus laid out for other limbs and mangled the
borrow, so every y in [p, 2^448) was accepted (a second encoding of the same
point) while some canonical encodings were refused.
---
 src/bignumber.rs   | 5 ++---
 src/constants32.rs | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..7557cc9 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -627,9 +627,8 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        // borrow of n - p, limb by limb: -1 at the end if and only if n < p
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> RADIX;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From dcc15682534b4e0e9d671cc3cedb50c5f9150acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 3/9] fix: compare all sixteen limbs in field equality

The top limb was left out, so elements differing by a multiple of 2^420 compared
equal and the curve-equation check gave wrong answers for such inputs.
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 7557cc9..ce3dd82 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From ec5e5df67359e28319a6c5d4f00f8621585b32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 4/9] fix: refuse a point encoding with x = 0 and the sign bit
 set

RFC 8032 5.2.3 step 4: decoding fails; the points with x = 0 otherwise have
two accepted encodings each.
---
 src/extended_point.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..e71c071 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,8 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    // RFC 8032 5.2.3: x = 0 has no negative, so its sign bit must be clear
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From 121396ebacd64c044dd1c0ae955c1fd66a03bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 5/9] fix: refuse a signature whose S is not below the group
 order

S was reduced silently, so anyone could turn a signature into about a thousand
others that verify for the same key and message.
---
 src/eddsa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index a3a50f4..42bb980 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -98,6 +98,10 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    // RFC 8032 5.2.7: S must already be reduced, or S + L would verify as well
+    if encode(&responce_scalar) != sig2 {
+        return Err(LibgoldilockErrors::DecodeSignatureError);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From fa7f2097aac338a45544311b2db5b2e608ca76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 6/9] fix: bind the verification challenge to the public key
 bytes given

The challenge hashed a re-encoding of the decoded key, which drops its torsion
component, so one signature verified under four different public keys.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 42bb980..bc06474 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -90,7 +90,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From ae7f360fc0b2d425883076f100415a6cc3aafbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:28 +0000
Subject: [PATCH 7/9] fix: report malformed hex as a deserialization error
 instead of panicking

Deserializing any of the three key types from a string that is not 114 hex
digits aborted the caller through an expect() although the trait returns Result.
---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..3a2222e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -184,7 +184,9 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SigningKey::from_slice(&key))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +210,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SecretKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +236,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(VerifyingKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0


From d369dc153a6a34b3f5b5b1c3b769d8a11ce96caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 8/9] verif: guarded hooks onto the private arithmetic layers

Compiled only with --cfg verif_field / verif_scalar / verif_point.
---
 src/lib.rs         |   3 ++
 src/verif_hooks.rs | 125 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 128 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3a2222e..b3b9c45 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::should_implement_trait)]
+#![allow(unexpected_cfgs)]
 mod bignumber;
 mod constants32;
 mod decaf_combs_32;
@@ -10,6 +11,8 @@ pub mod goldilocks;
 mod karatsuba_32;
 mod karatsuba_square_32;
 mod scalar;
+#[cfg(any(verif_field, verif_scalar, verif_point))]
+pub mod verif_hooks;
 
 use crate::errors::LibgoldilockErrors;
 use goldilocks::{ed448_derive_public, ed448_sign, hex_to_private_key};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..6b88761
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,125 @@
+//! Verification hooks: thin, stateless windows onto private arithmetic for the
+//! monitors in the external verification harness. Compiled only with
+//! `--cfg verif_field`, `--cfg verif_scalar` or `--cfg verif_point`; never part
+//! of a normal build.
+
+#[cfg(verif_field)]
+pub mod field {
+    use crate::bignumber as f;
+
+    pub type Limbs = [u32; 16];
+
+    pub fn add(x: &Limbs, y: &Limbs) -> Limbs {
+        f::add(x, y)
+    }
+    pub fn sub(x: &Limbs, y: &Limbs) -> Limbs {
+        f::sub(x, y)
+    }
+    pub fn mul(x: &Limbs, y: &Limbs) -> Limbs {
+        f::mul(x, y)
+    }
+    pub fn square(x: &Limbs) -> Limbs {
+        f::square(x)
+    }
+    pub fn mul_const(x: &Limbs, c: i64) -> Limbs {
+        f::mul_with_signed_curve_constant(x, &c)
+    }
+    pub fn inverse_sqrt(x: &Limbs) -> Limbs {
+        f::isr(x)
+    }
+    pub fn invert(x: &Limbs) -> Limbs {
+        f::invert(x)
+    }
+    pub fn reduce(x: &Limbs) -> Limbs {
+        f::strong_reduce(*x)
+    }
+    pub fn equal(x: &Limbs, y: &Limbs) -> u32 {
+        f::decaf_equal(x, y)
+    }
+    pub fn low_bit(x: &Limbs) -> u32 {
+        f::low_bit(x)
+    }
+    pub fn negate_if(x: &Limbs, mask: u32) -> (Limbs, Limbs) {
+        (f::conditional_negate(x, &mask), f::decaf_cond_negate(x, &mask))
+    }
+    pub fn from_bytes(b: &[u8]) -> (Limbs, u32) {
+        f::dsa_like_deserialize(b, 0)
+    }
+    pub fn to_bytes(x: &Limbs) -> [u8; 56] {
+        f::dsa_like_serialize(x)
+    }
+}
+
+#[cfg(verif_scalar)]
+pub mod scalar {
+    use crate::scalar as s;
+
+    pub type Words = [u32; 14];
+
+    pub fn add(a: &Words, b: &Words) -> Words {
+        s::add(a, b)
+    }
+    pub fn sub(a: &Words, b: &Words) -> Words {
+        s::sub(a, b)
+    }
+    pub fn mul(a: &Words, b: &Words) -> Words {
+        s::mul(a, b)
+    }
+    pub fn halve(a: &Words) -> Words {
+        s::halve(*a)
+    }
+    pub fn from_bytes(b: &[u8]) -> Words {
+        s::decode_long(b)
+    }
+    pub fn to_bytes(a: &Words) -> [u8; 57] {
+        s::encode(a)
+    }
+}
+
+#[cfg(verif_point)]
+pub mod point {
+    use crate::extended_point as e;
+
+    #[derive(Clone)]
+    pub struct Point(e::TwistedExtendedPoint);
+
+    pub fn decode(b: &[u8]) -> Option<Point> {
+        e::eddsa_like_decode(b).ok().map(Point)
+    }
+    pub fn base_mul(s: &[u32; 14]) -> Point {
+        Point(e::precomputed_scalar_mul(*s))
+    }
+
+    impl Point {
+        pub fn encode(&self) -> [u8; 57] {
+            self.0.eddsa_like_encode()
+        }
+        pub fn mul(&self, s: &[u32; 14]) -> Point {
+            Point(self.0.point_scalar_mul(s))
+        }
+        pub fn double_mul(&self, s_base: &[u32; 14], s_self: &[u32; 14]) -> Point {
+            Point(self.0.point_double_scalamul_non_secret(s_base, s_self))
+        }
+        pub fn double(&self) -> Point {
+            let mut p = self.0.clone();
+            p.double_internal(false);
+            Point(p)
+        }
+        pub fn add(&self, o: &Point) -> Point {
+            let mut p = self.0.clone();
+            p.add_projected_niels_to_extended(&o.0.to_projected_niels(), false);
+            Point(p)
+        }
+        pub fn sub(&self, o: &Point) -> Point {
+            let mut p = self.0.clone();
+            p.sub_projected_niels_from_extended_point(&o.0.to_projected_niels(), false);
+            Point(p)
+        }
+        pub fn equal(&self, o: &Point) -> bool {
+            self.0.mod_equal(&o.0)
+        }
+        pub fn on_curve(&self) -> bool {
+            self.0.is_on_curve()
+        }
+    }
+}
-- 
2.43.0


From 0ecd88b55d5747ec1e4da379b022ac3c6e12d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 9/9] fix: draw generated keys from the operating system so a
 fork cannot repeat them

The thread generator keeps a buffer of output that a forked child
shares with its parent: both went on to generate the same private keys
until the buffer was used up.
---
 src/goldilocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goldilocks.rs b/src/goldilocks.rs
index 80a0c9b..cba5c1e 100644
--- a/src/goldilocks.rs
+++ b/src/goldilocks.rs
@@ -180,7 +180,7 @@ pub fn ed448_verify_with_error(
 
 pub fn ed448_generate_key() -> PrivateKey {
     let mut random_key: PrivateKey = [0; 57];
-    rand::thread_rng().fill_bytes(&mut random_key);
+    rand::rngs::OsRng.fill_bytes(&mut random_key);
     random_key
 }
 
-- 
2.43.0

