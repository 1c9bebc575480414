From dbe67261122b856cd632dc23ef5fefd89f7dfa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 1/8] fix: merge surrogate pairs with addition so even planes
 decode correctly

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..af9c349 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From ef3e8756ba2155defe05b05962e96c47f3ac513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 2/8] fix: write unicode escapes most significant nibble first
 with valid hex digits

---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index af9c349..b4873fa 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From 437f82fdd02394531cefddae73719b7f29deca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 3/8] fix: count two bytes for U+0080 through U+00FF when
 escaping strings

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index b4873fa..6819b37 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,7 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From a7ed18ca41dee55bf5d5344a5ebdc31b491760ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 4/8] fix: compare raw and encoded strings by decoded text, not
 encoded length

---
 src/string.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6819b37..38e08cc 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -253,20 +253,8 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
                 }
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
-            (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
-                    self == b.as_ref()
-                } else {
-                    false
-                }
-            }
-            (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
-                    other == a.as_ref()
-                } else {
-                    false
-                }
-            }
+            (StringContents::Json(_), StringContents::Raw(b)) => self == b.as_ref(),
+            (StringContents::Raw(a), _) => other == a.as_ref(),
         }
     }
 }
-- 
2.43.0


From 642fa5923820006c517ddea266b13a9ba9be9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 5/8] fix: account for escape sequences in the size hint of
 AsJson

---
 src/string.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 38e08cc..60f71f0 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -875,7 +875,24 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        // Characters of the current escape sequence that haven't been returned.
+        let pending = match &self.state {
+            EscapeState::AlreadyEscaped => return (lower, upper),
+            EscapeState::None => 0,
+            EscapeState::Single(_) => 1,
+            EscapeState::Unicode { current_nibble, .. } => match current_nibble {
+                Some(nibble) => 4 - usize::from(*nibble),
+                None => 5,
+            },
+        };
+        // A character can be encoded using up to 6 characters (`\uXXXX`).
+        (
+            lower.saturating_add(pending),
+            upper
+                .and_then(|upper| upper.checked_mul(6))
+                .and_then(|upper| upper.checked_add(pending)),
+        )
     }
 }
 
-- 
2.43.0


From a27d844a1455ef5e96bbde549676b9f790e2b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 6/8] fix: hash equal strings with the same hasher calls
 however they are stored

---
 src/string.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 60f71f0..f1064fd 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -36,7 +36,8 @@ use crate::parser::{ParseDelegate, Parser};
 /// Additionally, this type implements `Ord`, `PartialOrd`, and `Hash` in ways
 /// that are consistent regardless of whether the string has escape sequences or
 /// not. If the underlying representation does not need extra processing, the
-/// built-in implementations for `&str` are always used.
+/// built-in implementations for `&str` are always used. The exception is `Hash`
+/// when the `alloc` feature is disabled, which hashes one character at a time.
 #[derive(Debug, Eq, Clone)]
 pub struct JsonString<'a> {
     /// The JSON-source for the string.
@@ -467,19 +468,24 @@ fn json_string_cmp() {
 
 impl<'a> hash::Hash for JsonString<'a> {
     fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        // Every representation must make the same calls to the hasher: a
+        // `Hasher` is allowed to give different results for the same bytes when
+        // they are split across calls differently.
+        #[cfg(feature = "alloc")]
         match &self.source {
             StringContents::Json(_) if self.info.has_escapes() => {
-                // The standard string hash writes out as bytes, but char
-                // hashing is done by converting to u32. We're purposely
-                // re-implementing Hasher::write_str via chars.
-                let mut char_bytes = [0; 4];
-                for ch in self.decoded() {
-                    state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
-                }
-                state.write_u8(0xff); // from Hasher::write_str
+                self.decoded().collect::<String>().hash(state);
             }
             StringContents::Json(str) | StringContents::Raw(str) => str.hash(state),
         }
+        #[cfg(not(feature = "alloc"))]
+        {
+            let mut char_bytes = [0; 4];
+            for ch in self.decoded() {
+                state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
+            }
+            state.write_u8(0xff); // from Hasher::write_str
+        }
     }
 }
 
-- 
2.43.0


From b713a799f66df33bd747d286b5a774bf6cd7cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 7/8] fix: name the missing brace once in the message for an
 unclosed object

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 3807845..77eaca3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -357,7 +357,7 @@ where
                 f.write_str("invalid hexadecimal in unicode escape sequence")
             }
             ErrorKind::InvalidEscape => f.write_str("invalid escaped character"),
-            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}}')"),
+            ErrorKind::UnclosedObject => f.write_str("expected end of object ('}')"),
             ErrorKind::UnclosedArray => f.write_str("expected end of array (']')"),
             ErrorKind::UnclosedString => f.write_str("expected end of string ('\"')"),
             ErrorKind::ExpectedString => f.write_str("expected a string"),
-- 
2.43.0


From 6924bf24b439a5bcb7edaf0c8ddf0565bbbc0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 8/8] fix: show the unexpected character instead of its number

---
 src/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 77eaca3..1f1a685 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -341,7 +341,11 @@ where
             ErrorKind::ExpectedCommaOrEndOfObject => f.write_str("expected comma or end of object"),
             ErrorKind::ExpectedCommaOrEndOfArray => f.write_str("expected comma or end of array"),
             ErrorKind::IllegalTrailingComma => f.write_str("trailing commas are not allowed"),
-            ErrorKind::Unexpected(ch) => write!(f, "unexpected character: '{ch}'"),
+            ErrorKind::Unexpected(ch) => write!(
+                f,
+                "unexpected character: '{}'",
+                core::ascii::escape_default(*ch)
+            ),
             ErrorKind::TrailingNonWhitespace => {
                 f.write_str("trailing non-whitespace data was encountered")
             }
-- 
2.43.0

