From bde8a4cc7700877165698eb4d70198bc1a7c77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:30 +0000
Subject: [PATCH 1/4] fix: string literal values treat CRLF in the literal's
 source as LF

The lexer accepts CRLF inside string literals, but str_value, byte_str_value
and cstr_value failed to unescape cooked literals containing it and kept the
CR in the value of raw ones.
---
 src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f590f9b..1232f61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1310,7 +1310,7 @@ impl Literal {
     /// Returns the unescaped string value if this is a string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn str_value(&self) -> Result<String, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = normalize_newlines(self.to_string());
 
         if repr.starts_with('"') && repr[1..].ends_with('"') {
             let quoted = &repr[1..repr.len() - 1];
@@ -1343,7 +1343,7 @@ impl Literal {
     /// a c-string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn cstr_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = normalize_newlines(self.to_string());
 
         if repr.starts_with("c\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
@@ -1384,7 +1384,7 @@ impl Literal {
     /// Returns the unescaped string value if this is a byte string literal.
     #[cfg(procmacro2_semver_exempt)]
     pub fn byte_str_value(&self) -> Result<Vec<u8>, ConversionErrorKind> {
-        let repr = self.to_string();
+        let repr = normalize_newlines(self.to_string());
 
         if repr.starts_with("b\"") && repr[2..].ends_with('"') {
             let quoted = &repr[2..repr.len() - 1];
@@ -1461,6 +1461,17 @@ pub enum ConversionErrorKind {
     InvalidLiteralKind,
 }
 
+// A CRLF in the source text of a literal denotes a LF.
+// https://doc.rust-lang.org/reference/input-format.html#crlf-normalization
+#[cfg(procmacro2_semver_exempt)]
+fn normalize_newlines(repr: String) -> String {
+    if repr.contains("\r\n") {
+        repr.replace("\r\n", "\n")
+    } else {
+        repr
+    }
+}
+
 // ###"..."### -> ...
 #[cfg(procmacro2_semver_exempt)]
 fn get_raw(repr: &str) -> Option<&str> {
-- 
2.43.0


From 767b8b6658c87e5e335b43d84cdc8abe14a3d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:07 +0000
Subject: [PATCH 2/4] fix: Literal::subspan takes a range of bytes, not chars

Spans count chars internally, so for a literal containing non-ASCII text the
requested byte range selected the wrong part of the literal, or nothing.
---
 src/fallback.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/fallback.rs b/src/fallback.rs
index 61dc21d..0e2294f 100644
--- a/src/fallback.rs
+++ b/src/fallback.rs
@@ -1165,33 +1165,22 @@ impl Literal {
         {
             use core::ops::Bound;
 
+            // The range is in bytes, whereas our spans count chars.
+            let text = self.span.source_text().unwrap_or_default();
             let lo = match range.start_bound() {
-                Bound::Included(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?
-                }
-                Bound::Excluded(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?.checked_add(1)?
-                }
-                Bound::Unbounded => self.span.lo,
+                Bound::Included(start) => *start,
+                Bound::Excluded(start) => start.checked_add(1)?,
+                Bound::Unbounded => 0,
             };
             let hi = match range.end_bound() {
-                Bound::Included(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?.checked_add(1)?
-                }
-                Bound::Excluded(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?
-                }
-                Bound::Unbounded => self.span.hi,
+                Bound::Included(end) => end.checked_add(1)?,
+                Bound::Excluded(end) => *end,
+                Bound::Unbounded => text.len(),
             };
-            if lo <= hi && hi <= self.span.hi {
-                Some(Span { lo, hi })
-            } else {
-                None
-            }
+            let subtext = text.get(lo..hi)?;
+            let lo = self.span.lo + text[..lo].chars().count() as u32;
+            let hi = lo + subtext.chars().count() as u32;
+            Some(Span { lo, hi })
         }
     }
 }
-- 
2.43.0


From eb2438a7cbf51813fa0cd2d20a343947a2efc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 3/4] verification hook: scheduling points in the detection
 (cfg procmacro2_verif)

---
 build.rs         |  1 +
 src/detection.rs |  4 ++++
 src/lib.rs       |  4 ++++
 src/verif.rs     | 18 ++++++++++++++++++
 4 files changed, 27 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/build.rs b/build.rs
index 26c3ed1..ee4a1e1 100644
--- a/build.rs
+++ b/build.rs
@@ -27,6 +27,7 @@ fn main() {
         println!("cargo:rustc-check-cfg=cfg(procmacro2_build_probe)");
         println!("cargo:rustc-check-cfg=cfg(procmacro2_nightly_testing)");
         println!("cargo:rustc-check-cfg=cfg(procmacro2_semver_exempt)");
+        println!("cargo:rustc-check-cfg=cfg(procmacro2_verif)");
         println!("cargo:rustc-check-cfg=cfg(randomize_layout)");
         println!("cargo:rustc-check-cfg=cfg(span_locations)");
         println!("cargo:rustc-check-cfg=cfg(super_unstable)");
diff --git a/src/detection.rs b/src/detection.rs
index beba7b2..1be605e 100644
--- a/src/detection.rs
+++ b/src/detection.rs
@@ -11,6 +11,8 @@ pub(crate) fn inside_proc_macro() -> bool {
         _ => {}
     }
 
+    #[cfg(procmacro2_verif)]
+    crate::verif::point(1);
     INIT.call_once(initialize);
     inside_proc_macro()
 }
@@ -26,6 +28,8 @@ pub(crate) fn unforce_fallback() {
 #[cfg(not(no_is_available))]
 fn initialize() {
     let available = proc_macro::is_available();
+    #[cfg(procmacro2_verif)]
+    crate::verif::point(2);
     WORKS.store(available as usize + 1, Ordering::Relaxed);
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 1232f61..fd2a57d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,6 +156,10 @@ pub mod fallback;
 
 pub mod extra;
 
+#[cfg(procmacro2_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(not(wrap_proc_macro))]
 use crate::fallback as imp;
 #[path = "wrapper.rs"]
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7ab775f
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,18 @@
+//! Points at which a verification build lets other threads run.
+
+use core::sync::atomic::{AtomicUsize, Ordering};
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// From now on `hook` is called with the number of each point that is reached.
+pub fn set_hook(hook: fn(u32)) {
+    HOOK.store(hook as usize, Ordering::SeqCst);
+}
+
+pub(crate) fn point(n: u32) {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if hook != 0 {
+        let hook = unsafe { core::mem::transmute::<usize, fn(u32)>(hook) };
+        hook(n);
+    }
+}
-- 
2.43.0


From da200426dca9c94389e41d5a22c5acfff72c26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:39 +0000
Subject: [PATCH 4/4] fix: first detection must not undo a concurrent
 force_fallback

---
 src/detection.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/detection.rs b/src/detection.rs
index 1be605e..e178f78 100644
--- a/src/detection.rs
+++ b/src/detection.rs
@@ -13,7 +13,7 @@ pub(crate) fn inside_proc_macro() -> bool {
 
     #[cfg(procmacro2_verif)]
     crate::verif::point(1);
-    INIT.call_once(initialize);
+    INIT.call_once(|| initialize(publish_if_unknown));
     inside_proc_macro()
 }
 
@@ -22,15 +22,25 @@ pub(crate) fn force_fallback() {
 }
 
 pub(crate) fn unforce_fallback() {
-    initialize();
+    initialize(publish);
+}
+
+fn publish(works: usize) {
+    WORKS.store(works, Ordering::Relaxed);
+}
+
+// The result of the first detection must not undo a force_fallback or
+// unforce_fallback which has been called by a different thread meanwhile.
+fn publish_if_unknown(works: usize) {
+    let _ = WORKS.compare_exchange(0, works, Ordering::Relaxed, Ordering::Relaxed);
 }
 
 #[cfg(not(no_is_available))]
-fn initialize() {
+fn initialize(publish: fn(usize)) {
     let available = proc_macro::is_available();
     #[cfg(procmacro2_verif)]
     crate::verif::point(2);
-    WORKS.store(available as usize + 1, Ordering::Relaxed);
+    publish(available as usize + 1);
 }
 
 // Swap in a null panic hook to avoid printing "thread panicked" to stderr,
@@ -58,7 +68,7 @@ fn initialize() {
 // not occur, they need to call e.g. `proc_macro2::Span::call_site()` from
 // the main thread before launching any other threads.
 #[cfg(no_is_available)]
-fn initialize() {
+fn initialize(publish: fn(usize)) {
     use std::panic::{self, PanicInfo};
 
     type PanicHook = dyn Fn(&PanicInfo) + Sync + Send + 'static;
@@ -69,7 +79,7 @@ fn initialize() {
     panic::set_hook(null_hook);
 
     let works = panic::catch_unwind(proc_macro::Span::call_site).is_ok();
-    WORKS.store(works as usize + 1, Ordering::Relaxed);
+    publish(works as usize + 1);
 
     let hopefully_null_hook = panic::take_hook();
     panic::set_hook(original_hook);
-- 
2.43.0

