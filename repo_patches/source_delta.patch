From f05de9d8394305023f3ea1f7bb4c9891efb9a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 01/20] fix: reject an empty fragment in absolute IRIs

---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..142cddd 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((query, fragment)) => (query, Some(fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // Note that the fragment may be empty, but it is still a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(fragment) => validate_fragment::<S>(fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 4b2e60317da879d988852e3a912450a235ac0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 02/20] fix: validate the path characters in the IRI builder

---
 src/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..90ff8ec 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,7 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From 2867e57d5b2f8df22abcb53bf639021108db330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 03/20] fix: normalize a builder path that is reduced to a
 single slash

---
 src/normalize/path.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..24ae426 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,6 +582,8 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
+            // The whole path is exactly `/`.
+            Ok(_) if writer.is_absolute == Some(true) => PathCharacteristic::CommonAbsolute,
             // Empty path.
             Ok(_) => PathCharacteristic::CommonRelative,
             Err(_) => writer
-- 
2.43.0


From c62b6771eb70c8621d9f97265efa49483375ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 04/20] fix: do not report an IRI with an empty port as
 normalized

---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..4a80336 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -366,6 +366,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
     if let Some(authority) = authority {
         let authority_components = authority::decompose_authority(authority);
 
+        // An empty port should be removed together with the preceding colon.
+        if authority_components.port() == Some("") {
+            return false;
+        }
+
         // Check `host`.
         let host = authority_components.host();
         let host_is_normalized = if is_ascii_only_host(host) {
-- 
2.43.0


From 1b7de2eceb6530df688ee30a4638418515b030c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 05/20] fix: do not treat a userinfo without colon as having a
 password

---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..a42e2ee 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // No colon, no password.
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From 83c3e2ab4394cce81234122afa139ea893bfde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 06/20] fix: do not panic when replacing the host of an IRI
 with a fragment

---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..6088adb 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                Self::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From 11613498b417e040e8c2161406d65653c4532e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/20] fix: do not lose or misinterpret characters after
 broken percent-encoding

---
 src/parser/str/maybe_pct_encoded.rs | 124 ++++++++++++++--------------
 1 file changed, 64 insertions(+), 60 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..54499d8 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -142,26 +142,6 @@ where
         let mut rest = s;
         while !rest.is_empty() {
             let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
-
-                // Write plain string prefix (if found).
-                let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
-                debug_assert!(
-                    !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
-                );
-                self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
-                self.result_continue_or_err()?;
-                rest = suffix;
-                continue;
-            }
-
             // Process decoding result.
             match result {
                 PushResult::Decoded(len_written, c) => {
@@ -171,6 +151,21 @@ where
                     self.result = (self.f)(PctEncodedFragments::Char(frag, c));
                     self.result_continue_or_err()?;
                 }
+                PushResult::Undecodable(0) => {
+                    // `rest` does not start with the percent-encoded triplets,
+                    // and the decoder has no pending data.
+                    debug_assert_eq!(len_consumed, 0);
+                    // Write plain string prefix (if found).
+                    let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
+                    debug_assert!(
+                        !plain_prefix.is_empty(),
+                        "empty result indicates non-empty `rest` not starting with `%`"
+                    );
+                    self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
+                    self.result_continue_or_err()?;
+                    rest = suffix;
+                    continue;
+                }
                 PushResult::Undecodable(len_written) => {
                     self.output_as_undecodable(len_written)?;
                 }
@@ -254,6 +249,40 @@ impl DecoderBuffer {
         }
     }
 
+    /// Attempts to decode the complete triplets at the head of the buffer.
+    ///
+    /// Returns the decoding result and pops the processed triplets (to `buf`)
+    /// if possible, or returns `None` if more bytes are necessary.
+    #[must_use]
+    fn take_decoding_result(&mut self, buf: &mut [u8]) -> Option<PushResult> {
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded, or no triplets are available.
+                let c = decoded_str.chars().next()?;
+                let len_result = NonZeroU8::new(self.len_encoded - self.len_encoded % 3)
+                    .expect("at least one triplet is decoded");
+                self.write_and_pop(buf, len_result.get());
+                Some(PushResult::Decoded(len_result, c))
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                // `None`: unexpected EOF. Wait for remaining input.
+                // `Some(_)`: Skip invalid bytes.
+                let skip_len_decoded = e.error_len()?;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                let len_result = skip_len_decoded as u8 * 3;
+                self.write_and_pop(buf, len_result);
+                Some(PushResult::Undecodable(len_result))
+            }
+        }
+    }
+
     /// Pushes the (possibly) encoded string to the buffer.
     ///
     /// When the push result is not `PctTripletPushResult::NeedMoreBytes`, the
@@ -268,6 +297,13 @@ impl DecoderBuffer {
             buf.len() >= 12,
             "[precondition] destination buffer should be at least 12 bytes"
         );
+        // The triplet which made the preceding bytes undecodable may be left in
+        // the buffer. Process it first since it can be a complete character (or
+        // an invalid byte) by itself.
+        if let Some(result) = self.take_decoding_result(buf) {
+            return (0, result);
+        }
+
         let mut chars = s.chars();
         let mut len_triplet_incomplete = self.len_encoded % 3;
         for c in &mut chars {
@@ -275,8 +311,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +325,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
@@ -307,42 +343,10 @@ impl DecoderBuffer {
 
             // Now a new percent-encoded triplet is read.
             // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            if let Some(result) = self.take_decoding_result(buf) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
-- 
2.43.0


From ce702786f70e43aae834e568248e8385171a9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 08/20] fix: preserve stray percent characters when decoding
 percent-encoded bytes

---
 src/percent_encode/decode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..cdd2d7a 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,12 +92,13 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
             if let Some(decoded) = decoded {
+                // `+1`: `%` character.
+                let len_before_pct = self.not_yet_decoded.len() - (after_pct.len() + 1);
                 return Some((len_before_pct, decoded, rest));
             }
             rest = after_pct;
@@ -167,7 +167,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // Preserve a stray `%` as is.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From be5ccdebc94c94a5ae7807bf3f1f3009dced1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 09/20] fix: do not panic on a multibyte character after a
 percent in URI templates

---
 src/template/parser/validate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..5c75c9a 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -118,20 +118,20 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                let xdigits2 = &xdigits2_and_rest.as_bytes()[..2];
+                if !xdigits2[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From a0f7958d87f5e67c0f0db183d65e0dac5b3f1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 10/20] fix: accept only positive integers less than 10000 as
 max-length of URI template variables

---
 src/template/parser/validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 5c75c9a..8364312 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,8 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            // `max-length = %x31-39 0*3DIGIT  ; positive integer < 10000`.
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
-- 
2.43.0


From 59cac69390c2ef4ca389c13ea0c12c46f6807dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/20] fix: reject trailing or repeating dots in variable
 names of URI templates

---
 src/template/parser/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 8364312..b4e35ad 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -62,7 +62,10 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // A dot should be followed by another character: `*( ["."] varchar )`.
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.contains("..")
+        && !rest.ends_with('.');
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From f2682612d6b9ff7b4cb3300aca51f20b521b928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 12/20] fix: count characters instead of bytes for max-length
 of URI template variables

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From 2d04058f063736dae8f2aa0e8ea34b5768f6ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 13/20] fix: do not encode percent-encoded variable names again
 on template expansion

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..9b75ccf 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -783,11 +783,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -870,11 +868,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From b456ee7a049bc7025fbbec6494f43ca85524f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 14/20] fix: omit '=' for empty exploded values of path-style
 template parameters

---
 src/template/expand.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 9b75ccf..4547a95 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -444,6 +444,22 @@ fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Escapes the value with the name already written, and writes it with the leading `=`.
+///
+/// If the value is empty, writes the operator-specific string instead of `=`.
+fn escape_write_exploded_value<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, _, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// Truncates the given value as a string, escapes the value, and writes it.
 fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     writer: &mut PrefixOnceWriter<'_, W>,
@@ -774,7 +790,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -786,12 +804,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_exploded_value::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -865,7 +886,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
+                if !self.oppr.named {
+                    self.visitor.writer.write_char('=')?;
+                }
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -892,12 +915,15 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_exploded_value::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From 11e7ca722fe3cda64b3450ae9f189f697b404fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 15/20] fix: detect unnormalizable base path on normalizing
 resolution

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..4f89e57 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,10 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // The path is kept as is unless the normalization is enabled.
+            Path::Done(_) if !self.op.mode.case_pct_normalization() => Ok(()),
+            Path::Done(path) => PathToNormalize::from_single_path(path)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From f247fd22b2d4f54651e15f07924b6cedf1a1ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 16/20] fix: accept ucschar and iprivate characters in URI
 template literals

---
 src/template/expand.rs          | 24 +++++++++++++++++++++---
 src/template/parser/validate.rs | 20 +++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 4547a95..257f621 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -138,7 +138,7 @@ impl<S: Spec, C: Context> fmt::Display for Expanded<'_, S, C> {
         for chunk in Chunks::new(self.template) {
             let expr = match chunk {
                 Chunk::Literal(lit) => {
-                    f.write_str(lit)?;
+                    write_literal::<S, _>(f, lit)?;
                     continue;
                 }
                 Chunk::Expr(body) => body,
@@ -206,8 +206,7 @@ fn expand_whole_dynamic_impl<S: Spec, W: fmt::Write, C: DynamicContext>(
     for chunk in Chunks::new(template) {
         let expr = match chunk {
             Chunk::Literal(lit) => {
-                writer
-                    .write_str(lit)
+                write_literal::<S, _>(writer, lit)
                     .map_err(|_| Error::new(ErrorKind::WriteFailed, pos))?;
                 pos += lit.len();
                 continue;
@@ -396,6 +395,25 @@ fn expand<S: Spec, C: Context>(
     Ok(())
 }
 
+/// Writes the literal part of the template.
+///
+/// > If the literal character is allowed anywhere in the URI syntax (unreserved
+/// > / reserved / pct-encoded), then it is copied directly to the result string.
+/// > Otherwise, the pct-encoded triplets for the literal character are
+/// > copied to the result string, by first encoding the character as its
+/// > sequence of octets in UTF-8 and then encoding each such octet as a
+/// > pct-encoded triplet.
+/// >
+/// > --- [RFC 6570 Section 3.1. Literal Expansion](https://www.rfc-editor.org/rfc/rfc6570.html#section-3.1)
+#[inline]
+fn write_literal<S: Spec, W: fmt::Write>(f: &mut W, lit: &str) -> fmt::Result {
+    if lit.is_ascii() {
+        f.write_str(lit)
+    } else {
+        escape_write::<S, _, _>(f, lit, true)
+    }
+}
+
 /// Escapes the given value and writes it.
 #[inline]
 fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index b4e35ad..747e559 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -3,6 +3,7 @@
 use crate::parser::str::{
     find_split2_hole, find_split_hole, satisfy_chars_with_pct_encoded, starts_with_double_hexdigits,
 };
+use crate::spec::{IriSpec, Spec};
 use crate::template::components::MaybeOperator;
 use crate::template::error::{Error, ErrorKind};
 
@@ -10,13 +11,26 @@ use crate::template::parser::char::{
     is_ascii_literal_char, is_ascii_varchar_continue, is_ascii_varchar_start,
 };
 
+/// Returns true if the given character is allowed in a literal string.
+///
+/// Note that `ucschar` and `iprivate` characters are allowed in literals
+/// regardless of the spec the template is expanded for, so the caller should
+/// specify `IriSpec`.
+fn is_literal_char<S: Spec>(c: char) -> bool {
+    if c.is_ascii() {
+        is_ascii_literal_char(c as u8)
+    } else {
+        S::is_nonascii_char_unreserved(c) || S::is_nonascii_char_private(c)
+    }
+}
+
 /// Returns `Ok(())` if the given string is a valid literal.
 fn validate_literal(s: &str, offset: usize) -> Result<(), Error> {
     match s
-        .chars()
-        .position(|c| !c.is_ascii() || !is_ascii_literal_char(c as u8))
+        .char_indices()
+        .find(|&(_, c)| !is_literal_char::<IriSpec>(c))
     {
-        Some(pos) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
+        Some((pos, _)) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
         None => Ok(()),
     }
 }
-- 
2.43.0


From eba0ce8fbba9173487d87b5f3a4e7544307f86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 17/20] fix: do not abort on allocation failure when there is
 no password to trim

---
 src/mask_password.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index a42e2ee..317c53a 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -201,12 +201,12 @@ macro_rules! impl_mask {
             type Target = $owned<S>;
 
             fn try_to_dedicated_string(&self) -> Result<Self::Target, TryReserveError> {
-                let pw_range = match password_range_to_hide(self.iri_ref.as_ref()) {
-                    Some(pw_range) => pw_range,
-                    None => return Ok(self.iri_ref.to_owned()),
-                };
-                let mut s = String::new();
                 let iri_ref = self.iri_ref.as_str();
+                // If there is no password to hide, copy the whole string (in a
+                // fallible way, as well).
+                let pw_range = password_range_to_hide(self.iri_ref.as_ref())
+                    .unwrap_or(iri_ref.len()..iri_ref.len());
+                let mut s = String::new();
                 s.try_reserve(iri_ref.len() - (pw_range.end - pw_range.start))?;
                 s.push_str(&iri_ref[..pw_range.start]);
                 s.push_str(&iri_ref[pw_range.end..]);
-- 
2.43.0


From 762bdb2305a1e2e6944ea9895bb85ba93b381fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 18/20] fix: do not apply formatter flags to single components
 of a built IRI

---
 src/build.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 90ff8ec..24168c3 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -189,7 +189,7 @@ impl AuthorityBuilder<'_> {
                 if normalize {
                     PctCaseNormalized::<S>::new(userinfo).fmt(f)?;
                 } else {
-                    userinfo.fmt(f)?;
+                    f.write_str(userinfo)?;
                 }
                 f.write_char('@')?;
             }
@@ -204,7 +204,7 @@ impl AuthorityBuilder<'_> {
                     if normalize {
                         PctCaseNormalized::<S>::new(password).fmt(f)?;
                     } else {
-                        password.fmt(f)?;
+                        f.write_str(password)?;
                     }
                 }
                 f.write_char('@')?;
@@ -221,7 +221,7 @@ impl AuthorityBuilder<'_> {
             }
             #[cfg(feature = "std")]
             HostRepr::IpAddr(ipaddr) => match ipaddr {
-                std::net::IpAddr::V4(v) => v.fmt(f)?,
+                std::net::IpAddr::V4(v) => write!(f, "{v}")?,
                 std::net::IpAddr::V6(v) => write!(f, "[{v}]")?,
             },
         }
-- 
2.43.0


From f664230e8a22b262e5a06676f08e61d257f3db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 19/20] fix: do not apply formatter flags to the replaced
 password

---
 src/mask_password.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 317c53a..44f872e 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -54,7 +54,7 @@ where
     );
 
     f.write_str(&s[..pw_range.start])?;
-    alt.fmt(f)?;
+    write!(f, "{}", alt)?;
     f.write_str(&s[pw_range.end..])?;
     Ok(())
 }
-- 
2.43.0


From 30cfadbed87af4f4cd5c1f281f8bdfb7db967a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 20/20] fix: point to the offending byte of an invalid
 max-length in URI templates

---
 src/template/parser/validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 747e559..846c5d7 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -44,13 +44,13 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
             if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
-                    offset + maybe_varname.len() + 2,
+                    offset + maybe_varname.len() + 1,
                 ));
             }
             if let Some(pos) = maybe_len.bytes().position(|b| !b.is_ascii_digit()) {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
-                    offset + maybe_varname.len() + 2 + pos,
+                    offset + maybe_varname.len() + 1 + pos,
                 ));
             }
         }
-- 
2.43.0

