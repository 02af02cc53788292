From c43b089320ce3078ecaaf200aa0af88b7c8b4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 01/10] fix: carry into the next trit when incrementing a trit
 slice

---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..aa07f3b 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From b4944943dac2d3d16d82ae5c974643a26e83bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 02/10] fix: compare both slices' own offsets in is_same

---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index aa07f3b..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -670,7 +670,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 99730f570d2d9562b4df562eff37a9e9d11cf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 03/10] fix: avoid integer overflow in take_min, drop_min and
 split_at_min

---
 src/trits/slice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 5154717..0398851 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -64,7 +64,7 @@ impl SliceRange {
     #[inline]
     pub fn take_min(self, n: usize) -> Self {
         Self {
-            n: std::cmp::min(self.n, self.d + n),
+            n: self.d + self.size_min(n),
             d: self.d,
         }
     }
@@ -84,7 +84,7 @@ impl SliceRange {
     pub fn drop_min(self, n: usize) -> Self {
         Self {
             n: self.n,
-            d: std::cmp::min(self.n, self.d + n),
+            d: self.d + self.size_min(n),
         }
     }
 
@@ -107,7 +107,7 @@ impl SliceRange {
     /// Take and drop no more than `n` trits from the current range.
     #[inline]
     pub fn split_at_min(self, n: usize) -> (Self, Self) {
-        let m = std::cmp::min(self.n, self.d + n);
+        let m = self.d + self.size_min(n);
         (Self { n: m, d: self.d }, Self { n: self.n, d: m })
     }
 
-- 
2.43.0


From 35c9e854dd4a07b9e3bf7248a7e374bf8c2fb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 04/10] fix: keep the root of a complete Merkle tree after its
 last leaf

---
 src/mss/mtcomplete.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..d632943 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -80,14 +80,16 @@ where
         }
 
         if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+            // Exhausted, keep just the root.
+            self.nodes = self.nodes.split_off(self.nodes.len() - 1);
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // The root is always the last node.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +119,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && nodes.len() == 1 {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From 5bb317b75b8a2a015929ef185085d31959cf6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 05/10] fix: refuse a hash of a wrong size when recovering an
 MSS public key

---
 src/mss/mss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mss/mss.rs b/src/mss/mss.rs
index 314e45e..0dcfeea 100644
--- a/src/mss/mss.rs
+++ b/src/mss/mss.rs
@@ -275,6 +275,10 @@ fn recover_apk(
 pub fn recover(apk: TritSliceMut, hash: TritSlice, mut sig: TritSlice) -> Option<usize> {
     assert_eq!(apk.size(), PK_SIZE);
 
+    if HASH_SIZE != hash.size() {
+        return None;
+    }
+
     if SKN_SIZE <= sig.size() {
         let (d, skn) = parse_skn(sig.advance(SKN_SIZE))?;
         let n = apath_size(d as usize);
-- 
2.43.0


From a9064ba4a2028401d0d9c0c9f568f47e5718d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 06/10] fix: reduce the constant coefficient in small3_add1

---
 src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly.rs b/src/poly.rs
index 107ed0e..120d2d8 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -167,7 +167,7 @@ impl Poly {
         }
     }
     pub fn small3_add1(&mut self) {
-        self.coeffs[0] += COEFF_ONE;
+        self.coeffs[0] = coeff_add(self.coeffs[0], COEFF_ONE);
     }
     pub fn small_mul3(&mut self) {
         for i in 0..N {
-- 
2.43.0


From c7f4672fc1a69455693c617aff7908ba9b7a62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 07/10] verification hook: constructors of AppInst and MsgId
 under cfg(iota_mam_verif)

---
 src/app/core/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..323b0ed 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use std::hash::{Hash, Hasher};
 
 use crate::pb3::{Absorb, Result};
@@ -38,3 +40,21 @@ impl Hash for MsgId {
 }
 
 pub mod msg;
+
+/// Constructors for the verification harness, compiled only with `--cfg iota_mam_verif`.
+#[cfg(iota_mam_verif)]
+mod verif {
+    use super::*;
+
+    impl AppInst {
+        pub fn verif_new(id: Trits) -> Self {
+            AppInst { id }
+        }
+    }
+
+    impl MsgId {
+        pub fn verif_new(id: Trits) -> Self {
+            MsgId { id }
+        }
+    }
+}
-- 
2.43.0


From 07619ca518f86a9cf50c07b9a726a5c11929296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 08/10] fix: refuse a trytes size larger than the rest of the
 message

---
 src/pb3/typ/trytes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..4e54c05 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,7 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +101,7 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From affae32a949665a6337124f743e96c111916713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 09/10] fix: report Eof for a keyload cut within entries for
 other readers

---
 src/app/channel/msg/keyload.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..670e3a5 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,11 +176,16 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::sizeof_ntrytes(81) <= b.size(), Err::Eof)?;
                 b.advance(pb3::sizeof_ntrytes(81));
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
+        guard(
+            psks_count.0 - n <= b.size() / sizeof_keyloadpsk,
+            Err::Eof,
+        )?;
         b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
     }
 
@@ -201,11 +206,16 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::ntrukem::sizeof_ntrukem() <= b.size(), Err::Eof)?;
                 b.advance(pb3::ntrukem::sizeof_ntrukem());
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
+        guard(
+            ntrus_count.0 - n <= b.size() / sizeof_keyloadntru,
+            Err::Eof,
+        )?;
         b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
     }
 
-- 
2.43.0


From e5c37c4a1d885f95c9b56f174ab1001ad08bc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 10/10] fix: report Eof for a masked trint cut short

---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0

