From cbf63146af83ba2b86cdfee1ad2cf93124c71cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:25 +0000
Subject: [PATCH 1/5] fix: parse two digit xterm color codes as decimal numbers

The second digit was added as its ASCII code, so "12" parsed to 60.
---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From b523685f02178c65c8fb264f57f82f4e0b222f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:25 +0000
Subject: [PATCH 2/5] fix: write foreground args for a runtime rgb foreground
 color

Color::Rgb wrote its background args, so a runtime style with an rgb
foreground and two or more effects colored the background instead.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From 5458ce461c4f893b380852999f27642e3a225ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:25 +0000
Subject: [PATCH 3/5] fix: use SGR 74 for subscript

73 is superscript, so both effects rendered as superscript.
---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From 98e0aa2996ac67993b97af2b0f89cfb9000bdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 4/5] fix: reject a trailing NUL or space when parsing "never"

Case folding maps NUL and space to the padding of the five letter word,
so "never " and "never\\0" were accepted, unlike any other padded word.
---
 src/mode.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..fb2b103 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -52,6 +52,8 @@ impl core::fmt::Display for ModeFromStrError {
     }
 }
 
+// When parsing, words are packed into a u64 with their length in the last byte, since
+// the case mask turns both a NUL and a space into the padding of a shorter word
 const ASCII_CASE_MASK: u8 = 0b0010_0000;
 const ASCII_CASE_MASK_SIMD: u64 = u64::from_ne_bytes([ASCII_CASE_MASK; 8]);
 
@@ -68,13 +70,13 @@ impl Mode {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, ModeFromStrError> {
-        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(ModeFromStrError),
         };
 
@@ -132,14 +134,14 @@ impl Stream {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, StreamFromStrError> {
-        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\0") | ASCII_CASE_MASK_SIMD;
-        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\x06") | ASCII_CASE_MASK_SIMD;
+        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(StreamFromStrError),
         };
 
-- 
2.43.0


From 5bbd2f9447df0bcf5e9b56ea015e124b98d7e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 5/5] fix: do not write effects to a stream without color
 support

With the supports-color feature, a value styled only with effects was
colored even when the selected stream was detected as not supporting
color, e.g. when it isn't a terminal. The std feature gets this right.
---
 src/mode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mode.rs b/src/mode.rs
index fb2b103..204ff80 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -508,6 +508,11 @@ fn should_color_slow(is_stdout: bool, kinds: &[ColorKind]) -> bool {
         ColorSupport::decode(support)
     };
 
+    // if no colors are supported, then effects aren't supported either
+    if !support.ansi && !support.xterm && !support.rgb {
+        return false;
+    }
+
     for &kind in kinds {
         let supported = match kind {
             ColorKind::Ansi => support.ansi,
-- 
2.43.0

