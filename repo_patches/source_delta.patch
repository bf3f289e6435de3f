From edd251d7fc97b072d2f138b7589ef0a80b16c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 1/3] fix: keyed BLAKE2sp broke on inputs longer than the
 shared buffer

The leaves kept the key block in their own buffers, but compress8 bypasses
those. Queue the key blocks in the shared buffer instead.
---
 src/blake2sp.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..995f944 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -124,6 +124,11 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block that to_state() left in the leaf's own buffer. The leaves'
+            // buffers have to stay empty until finalize, because compress8 bypasses them. The key
+            // blocks go into the shared buffer below instead.
+            state.buflen = 0;
+            state.count = 0;
             state
         };
         let mut root_state = base_params
@@ -140,6 +145,16 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        // Each leaf hashes the key block first, so the first block of the shared buffer for each
+        // leaf is the key block.
+        let mut buf = [0; 2 * 8 * BLOCKBYTES];
+        let mut buflen = 0;
+        if params.key_length > 0 {
+            for key_block in buf[..8 * BLOCKBYTES].chunks_mut(BLOCKBYTES) {
+                key_block[..KEYBYTES].copy_from_slice(&params.key);
+            }
+            buflen = 8 * BLOCKBYTES as u16;
+        }
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -150,8 +165,8 @@ impl State {
             leaf6: leaf_state(6),
             leaf7: leaf_state(7),
             root: root_state,
-            buf: [0; 2 * 8 * BLOCKBYTES],
-            buflen: 0,
+            buf,
+            buflen,
             compress8_fn: crate::default_compress_impl().1,
         }
     }
-- 
2.43.0


From 2c8273a7c5691edf4115ae1544a62953b7531515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 2/3] fix: hash4_exact and hash8_exact ignored the key in their
 SIMD versions

---
 src/avx2.rs  | 27 +++++++++++++++++++++++++--
 src/sse41.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/avx2.rs b/src/avx2.rs
index 80cd393..e4df7cb 100644
--- a/src/avx2.rs
+++ b/src/avx2.rs
@@ -12,6 +12,7 @@ use crate::Params;
 use crate::StateWords;
 use crate::BLOCKBYTES;
 use crate::IV;
+use crate::KEYBYTES;
 use crate::SIGMA;
 
 #[inline(always)]
@@ -727,6 +728,27 @@ pub unsafe fn hash8_exact(
     let len = input0.len();
     let mut count = 0;
 
+    // If there's a key, the key block comes before the input, and counts as input. It's never the
+    // last block here, because the inputs aren't empty.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        let key_vecs = load_msg_vecs_interleave(
+            &key_block, &key_block, &key_block, &key_block, &key_block, &key_block, &key_block,
+            &key_block,
+        );
+        compress8_transposed_inline(
+            &mut h_vecs,
+            &key_vecs,
+            load_256_from_u32(BLOCKBYTES as u32),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+        );
+        key_count = BLOCKBYTES as u64;
+    }
+
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
         // bounds are valid. Note that if these bounds were wrong, we'd get the wrong hash in any
@@ -740,8 +762,9 @@ pub unsafe fn hash8_exact(
         let msg6 = &*(input6.as_ptr().add(count) as *const Block);
         let msg7 = &*(input7.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = load_256_from_u32(count as u32);
-        let count_high = load_256_from_u32((count as u64 >> 32) as u32);
+        let total = key_count + count as u64;
+        let count_low = load_256_from_u32(total as u32);
+        let count_high = load_256_from_u32((total >> 32) as u32);
         let lastblock = load_256_from_u32(if count == len { !0 } else { 0 });
         let lastnode = load_256_from_u32(if params.last_node && count == len {
             !0
diff --git a/src/sse41.rs b/src/sse41.rs
index d5975f5..9177db4 100644
--- a/src/sse41.rs
+++ b/src/sse41.rs
@@ -3,7 +3,7 @@ use core::arch::x86::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 
-use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, OUTBYTES, SIGMA};
+use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, KEYBYTES, OUTBYTES, SIGMA};
 
 #[inline(always)]
 unsafe fn loadu(p: *const u32) -> __m128i {
@@ -731,6 +731,26 @@ pub unsafe fn hash4_exact(
     let len = input0.len();
     let mut count = 0;
 
+    // If there's a key, the key block comes before the input, and counts as input. It's never the
+    // last block here, because the inputs aren't empty.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        compress4_transposed_inline(
+            &mut h_vecs,
+            &key_block,
+            &key_block,
+            &key_block,
+            &key_block,
+            set1(BLOCKBYTES as u32),
+            set1(0),
+            set1(0),
+            set1(0),
+        );
+        key_count = BLOCKBYTES as u64;
+    }
+
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
         // bounds are valid. Note that if these bounds were wrong, we'd get the wrong hash in any
@@ -740,8 +760,9 @@ pub unsafe fn hash4_exact(
         let msg2 = &*(input2.as_ptr().add(count) as *const Block);
         let msg3 = &*(input3.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = set1(count as u32);
-        let count_high = set1(((count as u64) >> 32) as u32);
+        let total = key_count + count as u64;
+        let count_low = set1(total as u32);
+        let count_high = set1((total >> 32) as u32);
         let lastblock = set1(if count == len { !0 } else { 0 });
         let lastnode = set1(if params.last_node && count == len {
             !0
-- 
2.43.0


From 98850b85d1ac61de5561f478717d488f49901565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 3/3] fix: count() included the key block for keyed states

---
 src/blake2sp.rs | 7 +++++++
 src/lib.rs      | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 995f944..bb18861 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -86,6 +86,7 @@ pub struct State {
     // have enough input when we compress to know we don't need to finalize any of the leaves.
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
+    is_keyed: bool,
     compress8_fn: Compress8Fn,
 }
 
@@ -129,6 +130,7 @@ impl State {
             // blocks go into the shared buffer below instead.
             state.buflen = 0;
             state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -145,6 +147,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         // Each leaf hashes the key block first, so the first block of the shared buffer for each
         // leaf is the key block.
         let mut buf = [0; 2 * 8 * BLOCKBYTES];
@@ -167,6 +170,7 @@ impl State {
             root: root_state,
             buf,
             buflen,
+            is_keyed: params.key_length > 0,
             compress8_fn: crate::default_compress_impl().1,
         }
     }
@@ -404,6 +408,8 @@ impl State {
 
     /// Return the total number of bytes input so far.
     pub fn count(&self) -> u64 {
+        // The leaves' key blocks aren't part of the caller's input.
+        let key_count = if self.is_keyed { 8 * BLOCKBYTES as u64 } else { 0 };
         self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
@@ -413,6 +419,7 @@ impl State {
             + self.leaf6.count()
             + self.leaf7.count()
             + self.buflen as u64
+            - key_count
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..7d67c3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -416,7 +418,9 @@ impl State {
 
     /// Return the total number of bytes input so far.
     pub fn count(&self) -> u64 {
-        self.count
+        // The key block isn't part of the caller's input.
+        let key_count = if self.is_keyed { BLOCKBYTES as u64 } else { 0 };
+        self.count - key_count
     }
 }
 
@@ -1002,6 +1006,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0

