From 773f846b9774332f9965050765ff32c7cb8fe351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 1/2] fix: include the side to move in the keys of a
 constructed position

A position constructed with White to move had the key of the same diagram with
Black to move, and differed from the same position reached by playing a move.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..91093bc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,9 @@ impl Position {
                 }
             }
         }
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0


From 8f36cec9e76c70de9f1f69f25d0be5ee01bbd3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 2/2] fix: store vector lanes through a mutable pointer

MaybeUninit::as_ptr borrows the buffer as shared; writing through a pointer
derived from it is undefined behaviour (reported by Miri).
---
 src/bitboard/aarch64.rs | 4 ++--
 src/bitboard/x86_64.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitboard/aarch64.rs b/src/bitboard/aarch64.rs
index 120170a..7160f45 100644
--- a/src/bitboard/aarch64.rs
+++ b/src/bitboard/aarch64.rs
@@ -62,8 +62,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(self) -> [u64; 2] {
         unsafe {
-            let m = MaybeUninit::<[u64; 2]>::uninit();
-            aarch64::vst1q_u64(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[u64; 2]>::uninit();
+            aarch64::vst1q_u64(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
diff --git a/src/bitboard/x86_64.rs b/src/bitboard/x86_64.rs
index 2732df2..33034e4 100644
--- a/src/bitboard/x86_64.rs
+++ b/src/bitboard/x86_64.rs
@@ -66,8 +66,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(&self) -> [i64; 2] {
         unsafe {
-            let m = MaybeUninit::<[i64; 2]>::uninit();
-            x86_64::_mm_storeu_si128(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[i64; 2]>::uninit();
+            x86_64::_mm_storeu_si128(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
-- 
2.43.0

