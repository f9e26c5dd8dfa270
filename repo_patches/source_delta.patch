From 92d053752dda89403c7345192cead9c5b1f688dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 1/2] hook: expose private stages under cfg(lyra2_verif)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a330a71..ee97548 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod bmw;
 mod cubehash;
 mod lyra2mod;
@@ -7,3 +8,13 @@ pub mod lyra2z;
 pub mod lyra2re;
 pub mod lyra2rev2;
 pub mod lyra2rev3;
+
+/// Private stages, re-exported for the verification harness only.
+#[cfg(lyra2_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::bmw::sum as bmw_sum;
+    pub use crate::cubehash::sum as cubehash_sum;
+    pub use crate::lyra2mod::lyra2mod;
+    pub use crate::lyra2mod::sum as lyra2mod_sum;
+}
-- 
2.43.0


From dc89cbe18a7407f36cef49c84246419b9d68971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:32 +0000
Subject: [PATCH 2/2] fix: lyra2 panicked for every output length above 96
 bytes

squeeze() copied k bytes out of the temporary buffer inside the loop, before
enough 96-byte blocks had been produced; copy once, after the loop.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0

