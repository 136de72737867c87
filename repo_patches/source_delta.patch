From 94cba3da7b129627e3d1a5ef2b3cb88e8199b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 1/6] fix: UBig::clear_bit beyond the first word keeps small
 values

clear_bit takes the value out of self and, for a one-word number and a bit
index past the word, never put it back: ubig!(7).clear_bit(64) became 0.
---
 src/bits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f6d0bb4 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -102,6 +102,8 @@ impl UBig {
             Small(word) => {
                 if n < WORD_BITS_USIZE {
                     *self = UBig::from_word(word & !(1 << n))
+                } else {
+                    *self = UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From fc7f6718dcf37f3a7b531385c010b4403ae5895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:21 +0000
Subject: [PATCH 2/6] fix: Signed::abs_sub is zero when self is not greater
 than other

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..0c9c808 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From 6756a29ca22435ea18db81d37b7b981820a4ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:21 +0000
Subject: [PATCH 3/6] fix: extended_gcd intermediate values never exceed the
 inputs

---
 src/gcd.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/gcd.rs b/src/gcd.rs
index 7b097d0..a953ffb 100644
--- a/src/gcd.rs
+++ b/src/gcd.rs
@@ -137,15 +137,17 @@ impl UBig {
             // b is odd
             while &a & 1u8 == 0u8 {
                 // a is even
+                a >>= 1usize;
                 if &ax & 1u8 != 0u8 || &ay & 1u8 != 0u8 {
-                    ax += &v;
-                    ay += &u;
+                    // ax + v, ay + u are even.
+                    ax = average(ax, &v);
+                    ay = average(ay, &u);
+                } else {
+                    // ax, ay are even.
+                    ax >>= 1usize;
+                    ay >>= 1usize;
                 }
-                // Now ax, ay are even.
-                a >>= 1usize;
-                ax >>= 1usize;
-                ay >>= 1usize;
-                // Again ax <= v, bx <= u.
+                // Again ax <= v, ay <= u.
             }
             // Both a and b are odd.
             if a < b {
@@ -155,11 +157,13 @@ impl UBig {
             }
             a -= &b;
             if ax < bx {
-                ax += &v;
-                ay += &u;
+                // The new ay = ay + u - by is at most u (see below), so ay <= by.
+                ax = &v - (&bx - ax);
+                ay = &u - (&by - ay);
+            } else {
+                ax -= &bx;
+                ay -= &by;
             }
-            ax -= &bx;
-            ay -= &by;
             // ax >= 0 in both cases
             // ax <= v in both cases
             // ax * u - ay * v = a
@@ -174,6 +178,14 @@ impl UBig {
     }
 }
 
+/// (x + y) / 2, where x + y is even.
+///
+/// Never creates a number larger than max(x, y).
+fn average(x: UBig, y: &UBig) -> UBig {
+    let carry = &x & 1u8;
+    (x >> 1usize) + (y >> 1usize) + carry
+}
+
 impl IBig {
     /// Greatest common divisor.
     ///
-- 
2.43.0


From 70c81c5a01f11c46b9827baf666b5f0ccd4efe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 4/6] fix: reducing numbers close to the maximum length into a
 large ModuloRing

---
 src/modular/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modular/convert.rs b/src/modular/convert.rs
index d709966..9a2833e 100644
--- a/src/modular/convert.rs
+++ b/src/modular/convert.rs
@@ -10,7 +10,7 @@ use crate::{
         modulo::{Modulo, ModuloLarge, ModuloRepr, ModuloSmall, ModuloSmallRaw},
         modulo_ring::{ModuloRing, ModuloRingLarge, ModuloRingRepr, ModuloRingSmall},
     },
-    primitive::extend_word,
+    primitive::{extend_word, split_double_word},
     shift,
     sign::Sign::*,
     ubig::{Repr, UBig},
@@ -197,13 +197,21 @@ impl<'a> ModuloSmall<'a> {
 }
 
 impl<'a> ModuloLarge<'a> {
-    pub(crate) fn from_ubig(mut x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
-        x <<= ring.shift() as usize;
+    pub(crate) fn from_ubig(x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
         let modulus = ring.normalized_modulus();
         let mut vec = Vec::with_capacity(modulus.len());
         match x.into_repr() {
-            Repr::Small(word) => vec.push(word),
+            Repr::Small(word) => {
+                let (low, high) = split_double_word(extend_word(word) << ring.shift());
+                vec.push(low);
+                vec.push(high);
+            }
             Repr::Large(mut words) => {
+                // Shift in the buffer: x << shift may be too large for a UBig.
+                let carry = shift::shl_in_place(&mut words, ring.shift());
+                if carry != 0 {
+                    words.push_may_reallocate(carry);
+                }
                 if words.len() < modulus.len() {
                     vec.extend(&*words);
                 } else {
-- 
2.43.0


From ff7f3c809a55e84b625fcf6dd7e618f66f34e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 5/6] fix: UBig deserialization does not trust the size hint

---
 src/serde.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..79e59a8 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -42,37 +42,16 @@ impl<'de> Visitor<'de> for UBigVisitor {
     }
 
     fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<UBig, A::Error> {
-        match seq.size_hint() {
-            Some(0) => {
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from_word(0))
-            }
-            Some(1) => {
-                let word_64: u64 = seq.next_element()?.unwrap();
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from(word_64))
-            }
-            Some(num_words_64) => {
-                let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
-                for _ in 0..num_words_64 {
-                    let word_64: u64 = seq.next_element()?.unwrap();
-                    push_word_64(&mut buffer, word_64);
-                }
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(buffer.into())
-            }
-            None => {
-                let mut words_64 = Vec::new();
-                while let Some(word_64) = seq.next_element()? {
-                    words_64.push(word_64);
-                }
-                let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
-                for word_64 in words_64 {
-                    push_word_64(&mut buffer, word_64);
-                }
-                Ok(buffer.into())
-            }
+        // The size hint is only advisory: don't rely on its value.
+        let mut words_64 = Vec::new();
+        while let Some(word_64) = seq.next_element::<u64>()? {
+            words_64.push(word_64);
+        }
+        let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
+        for word_64 in words_64 {
+            push_word_64(&mut buffer, word_64);
         }
+        Ok(buffer.into())
     }
 }
 
-- 
2.43.0


From a4fda4bd8207f9ef60c4830fe7e8c49a09fa811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:41 +0000
Subject: [PATCH 6/6] fix: from_le_bytes/from_be_bytes refused numbers within
 the size limit because of zero padding

---
 src/convert.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/convert.rs b/src/convert.rs
index 41c986b..04c6502 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -38,6 +38,9 @@ impl UBig {
     /// ```
     #[inline]
     pub fn from_le_bytes(bytes: &[u8]) -> UBig {
+        // Leading zeros do not count towards the size limit.
+        let len = bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+        let bytes = &bytes[..len];
         if bytes.len() <= WORD_BYTES {
             // fast path
             UBig::from_word(primitive::word_from_le_bytes_partial(bytes))
@@ -69,6 +72,9 @@ impl UBig {
     /// ```
     #[inline]
     pub fn from_be_bytes(bytes: &[u8]) -> UBig {
+        // Leading zeros do not count towards the size limit.
+        let zeros = bytes.iter().take_while(|&&b| b == 0).count();
+        let bytes = &bytes[zeros..];
         if bytes.len() <= WORD_BYTES {
             // fast path
             UBig::from_word(primitive::word_from_be_bytes_partial(bytes))
-- 
2.43.0

