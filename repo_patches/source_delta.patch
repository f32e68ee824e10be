From 8b797490baa1ff632e46537d4aa7cd57b54a2d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH] fix: do not panic when the MATMUL_NUM_THREADS diagnostic
 can't be written

eprintln! panics when stderr is not writable (closed pipe, full device).
Here that happens inside the registry's lazy initialiser, so the call
panics and every later call in the process panics too because the lazy
value is poisoned.
---
 src/threading.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 128c89c..61ff0e4 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -4,6 +4,8 @@
 #[cfg(feature="threading")]
 use std::cmp::min;
 #[cfg(feature="threading")]
+use std::io::Write;
+#[cfg(feature="threading")]
 use std::str::FromStr;
 #[cfg(feature="threading")]
 use once_cell::sync::Lazy;
@@ -64,7 +66,9 @@ static REGISTRY: Lazy<Registry> = Lazy::new(|| {
             if let Ok(nt) = usize::from_str(&s) {
                 nt
             } else {
-                eprintln!("Failed to parse MATMUL_NUM_THREADS");
+                // Only a diagnostic: unlike `eprintln!` this doesn't panic (and so poison the
+                // registry for good) when stderr can't be written to.
+                let _ = writeln!(std::io::stderr(), "Failed to parse MATMUL_NUM_THREADS");
                 1
             }
         }
-- 
2.43.0

