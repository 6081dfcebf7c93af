From bbbd2ceec19fed4cee923724306813b00e1a5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 01/17] hook: expose trace types and the encoders under
 cfg(email_parser_verif)

---
 email-parser/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/email-parser/src/lib.rs b/email-parser/src/lib.rs
index e5ef2d0..e906375 100644
--- a/email-parser/src/lib.rs
+++ b/email-parser/src/lib.rs
@@ -65,3 +65,14 @@ pub mod time;
 
 pub use crate::parsing::fields::Field;
 pub use crate::parsing::message::parse_message;
+
+/// Private items for the verification harness; compiled only with `--cfg email_parser_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(email_parser_verif)]
+pub mod verif {
+    pub use crate::parsing::fields::{ReceivedToken, TraceField};
+    #[cfg(feature = "mime")]
+    pub use crate::parsing::mime::base64::encode_base64;
+    #[cfg(feature = "mime")]
+    pub use crate::parsing::mime::quoted_printables::encode_qp;
+}
-- 
2.43.0


From 2a122222eef21ec89afb363d6b797de0949f31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 02/17] fix: accept dates from 1900 to 1989

RFC 5322 (3.3) allows every year from 1900 on; messages dated before 1990
were rejected as a whole (MissingHeader("Date")).
---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..d244628 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must not be before 1900"));
     }
 
     let (input, _) = fws(input)?;
-- 
2.43.0


From a77df1d4c75fa684be16dfb41a97828c6aa1dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 03/17] fix: reject day 0 in dates

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index d244628..84bccc7 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day == 0 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From 6f9c1b7981cc0a616926fe8b1e8c3d52afb9f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 04/17] fix: do not recurse on nested comments

A few thousand opening parentheses in any structured header overflowed
the stack and aborted the process.
---
 email-parser/src/parsing/whitespaces.rs | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..7940bc1 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -44,14 +44,24 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
-
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
-
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+
+    // The nesting depth is chosen by the sender, so it must not be the depth of the stack.
+    let mut depth: usize = 1;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
+        input = match new_input.get(0) {
+            Some(b'(') => {
+                depth += 1;
+                &new_input[1..]
+            }
+            Some(b')') => {
+                depth -= 1;
+                &new_input[1..]
+            }
+            _ => ccontent(new_input)?.0,
+        };
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From 2c5acdbcdabb50d778ead9a5ea73545cdc7771fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 05/17] fix: accept white space before the CRLF ending a
 structured header

"From: a@b \r\n" was not recognised as a From header, because the white
space was only tried as the start of a fold.
---
 email-parser/src/parsing/whitespaces.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 7940bc1..e63b4ee 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -68,6 +68,15 @@ pub fn comment(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
+    // White space may also be followed by the CRLF ending the header.
+    fn fws_or_wsp(input: &[u8]) -> Res<Cow<str>> {
+        if let Ok(result) = fws(input) {
+            return Ok(result);
+        }
+        let (input, value) = take_while1(input, is_wsp)?;
+        Ok((input, Cow::Borrowed(value)))
+    }
+
     fn real_cfws(mut input: &[u8]) -> Res<Cow<str>> {
         let mut output = empty_string();
 
@@ -94,7 +103,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
             }
         }
 
-        let (input, fws) = optional(input, fws);
+        let (input, fws) = optional(input, fws_or_wsp);
         if let Some(s) = fws {
             add_string(&mut output, s);
         }
@@ -102,7 +111,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
         Ok((input, output))
     }
 
-    match_parsers(input, &mut [real_cfws, fws][..])
+    match_parsers(input, &mut [real_cfws, fws_or_wsp][..])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0a071e8d48a5b59953514d424d13c86deaedb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 06/17] fix: accept an empty Bcc header

RFC 5322 (3.6.3) allows "Bcc:" followed by nothing at all.
---
 email-parser/src/parsing/fields.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..d1caaff 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,9 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        let (input, _cfws) = optional(input, cfws);
+        (input, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From 77dc78fc8f5ffd50e6635ab3e08bba69cc09b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 07/17] fix: recognise bare addresses in Received headers

The addr-spec alternative could never be reached, so "for a@b;" made the
header unknown.
---
 email-parser/src/parsing/fields.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index d1caaff..e2a66a3 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -541,7 +541,10 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
         "TAG NO CASE ERROR: Header name (Received) does not match.",
     )?;
     let (input, received_tokens) = many(input, |input| {
-        if let Ok((word_input, word)) = word(input) {
+        // a bare addr-spec starts like a word
+        if let Ok((input, addr)) = addr_spec(input) {
+            Ok((input, ReceivedToken::Addr(addr)))
+        } else if let Ok((word_input, word)) = word(input) {
             if let Ok((domain_input, domain)) = domain(input) {
                 if domain.len() > word.len() {
                     return Ok((domain_input, ReceivedToken::Domain(domain)));
@@ -550,8 +553,6 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Ok((word_input, ReceivedToken::Word(word)))
         } else if let Ok((input, addr)) = angle_addr(input) {
             Ok((input, ReceivedToken::Addr(addr)))
-        } else if let Ok((input, addr)) = addr_spec(input) {
-            Ok((input, ReceivedToken::Addr(addr)))
         } else if let Ok((input, domain)) = domain(input) {
             Ok((input, ReceivedToken::Domain(domain)))
         } else {
-- 
2.43.0


From c0b367a9aed4859e1b4e0db01822e21385fb124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 08/17] fix: accept several or folded comments at the end of
 MIME headers

Only one unfolded comment was accepted after the last parameter, so
"Content-Type: text/plain (a) (b)" was not recognised.
---
 email-parser/src/parsing/mime/mime_fields.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..d344268 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -5,13 +5,8 @@ use std::collections::HashMap;
 
 #[inline]
 fn ignore_inline_cfws(input: &[u8]) -> Res<()> {
-    triplet(
-        input,
-        |input| take_while(input, is_wsp),
-        |input| Ok(optional(input, comment)),
-        |input| take_while(input, is_wsp),
-    )
-    .map(|(i, _)| (i, ()))
+    let (input, _cfws) = optional(input, cfws);
+    Ok((input, ()))
 }
 
 #[inline]
-- 
2.43.0


From 2f2cf4c843642f94b2fe2083e31d5ef246d1f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 09/17] fix: compare MIME types, dispositions and encodings as
 whole tokens

A name starting with a known one was taken for it: "binary-foo" and
"textual/plain" made their headers unrecognised instead of unknown values.
---
 email-parser/src/parsing/mime/mime_fields.rs | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index d344268..85cb214 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -16,6 +16,21 @@ fn token(input: &[u8]) -> Res<&str> {
     })
 }
 
+/// Like `tag_no_case`, but what follows must not belong to the same token.
+#[inline]
+fn token_no_case<'a>(
+    input: &'a [u8],
+    expected: &'static [u8],
+    expected2: &'static [u8],
+    error_message: &'static str,
+) -> Res<'a, ()> {
+    let (input, ()) = tag_no_case(input, expected, expected2, error_message)?;
+    if token(input).is_ok() {
+        return Err(Error::Explicit(error_message));
+    }
+    Ok((input, ()))
+}
+
 pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     let (input, ()) = tag_no_case(
         input,
@@ -152,7 +167,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
         input,
         &mut [
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"text",
                     b"TEXT",
@@ -161,7 +176,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Text))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"multipart",
                     b"MULTIPART",
@@ -170,11 +185,11 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Multipart))
             },
             |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
+                token_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
                     .map(|(i, ())| (i, ContentType::Application))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"image",
                     b"IMAGE",
@@ -183,7 +198,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Image))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"video",
                     b"VIDEO",
@@ -192,7 +207,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Video))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"audio",
                     b"AUDIO",
@@ -201,7 +216,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Audio))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"message",
                     b"MESSAGE",
@@ -254,10 +269,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
+                token_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
             },
             |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
+                token_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
                     .map(|(i, ())| (i, DispositionType::Attachment))
             },
             |input| {
@@ -366,23 +381,23 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
+                token_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::SevenBit))
             },
             |input| {
-                tag_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
+                token_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::QuotedPrintable))
             },
             |input| {
-                tag_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
+                token_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Base64))
             },
             |input| {
-                tag_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
+                token_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::HeightBit))
             },
             |input| {
-                tag_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
+                token_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
                     .map(|(i, ())| (i, ContentTransferEncoding::Binary))
             },
             |input| {
-- 
2.43.0


From b826f81c840aea0a1155d5f5fc9f359540b5e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 10/17] fix: do not overflow on 256 parameter continuations

The index of the next continuation is a u8; incrementing it past *255
panicked with overflow checks on.
---
 email-parser/src/parsing/mime/percent_encoding.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..0852517 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -162,8 +162,8 @@ pub fn collect_parameters<'a>(
                 (value, None, None)
             };
 
-            let mut idx = 1;
-            while let Some((encoded, new_value)) = values.remove(&idx) {
+            let mut idx: Option<u8> = Some(1);
+            while let Some((encoded, new_value)) = idx.and_then(|idx| values.remove(&idx)) {
                 if encoded && charset.is_some() {
                     add_string(
                         &mut value,
@@ -175,7 +175,7 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
+                idx = idx.and_then(|idx| idx.checked_add(1));
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From c382272037a6d4195c3fe5a567fe60f6e26cf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 11/17] fix: decode percent escapes of parameters once

Escapes were decoded from right to left in place, so a decoded digit could
complete the escape before it: "%2%35" became "%" instead of "%25".
---
 .../src/parsing/mime/percent_encoding.rs      | 48 ++++++++-----------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 0852517..51daf60 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use std::{borrow::Cow, collections::HashMap};
 
-pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
+pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
     if ![
         "utf-8",
         "us-ascii",
@@ -33,39 +33,33 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
-            percents.push(idx);
+    fn from_hex(n: &u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
         }
     }
 
-    for percent in percents.iter().rev() {
-        fn from_hex(n: &u8) -> Option<u8> {
-            match n {
-                b'0'..=b'9' => Some(n - b'0'),
-                b'A'..=b'F' => Some(10 + n - b'A'),
-                b'a'..=b'f' => Some(10 + n - b'a'),
-                _ => None,
+    // Every escape is decoded once: what it stands for must not be part of another one.
+    let mut decoded = Vec::with_capacity(input.len());
+    let mut idx = 0;
+    while idx < input.len() {
+        let first = input.get(idx + 1).and_then(from_hex);
+        let second = input.get(idx + 2).and_then(from_hex);
+        match (input[idx], first, second) {
+            (b'%', Some(first), Some(second)) => {
+                decoded.push(first * 16 + second);
+                idx += 3;
             }
-        }
-
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
-            if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
-                }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
+            (byte, _, _) => {
+                decoded.push(byte);
+                idx += 1;
             }
         }
     }
+    let input = decoded;
 
     use textcode::*;
     let text = match charset.as_ref() {
-- 
2.43.0


From 992ede953d66208b762bcf565e2c4cd3a31d9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 12/17] fix: decode extended parameters that are not split

RFC 2231 (4) allows "name*=charset'language'text" without an index; the
value was returned undecoded.
---
 .../src/parsing/mime/percent_encoding.rs      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 51daf60..485d41d 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -89,6 +89,23 @@ pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Err
     Ok(text)
 }
 
+/// Splits `charset'language'text` into the charset and the text.
+fn split_extended_value(value: &str) -> Result<(Cow<str>, &[u8]), Error> {
+    let (value, charset) = take_while(value.as_bytes(), |c| c != b'\'')?;
+    let (value, ()) = tag(
+        value,
+        b"'",
+        "TAG ERROR: In an extended parameter, a charset must be followed by a `'`.",
+    )?;
+    let (value, _language) = take_while(value, |c| c != b'\'')?;
+    let (value, ()) = tag(
+        value,
+        b"'",
+        "TAG ERROR: In an extended parameter, a language must be followed by a `'`.",
+    )?;
+    Ok((lowercase(Cow::Borrowed(charset)), value))
+}
+
 pub fn collect_parameters<'a>(
     parameters_vec: Vec<(Cow<'a, str>, Option<u8>, bool, Cow<'a, str>)>,
 ) -> Result<HashMap<Cow<'a, str>, Cow<'a, str>>, Error> {
@@ -103,6 +120,12 @@ pub fn collect_parameters<'a>(
                 .get_mut(&name)
                 .unwrap()
                 .insert(index, (encoded, value));
+        } else if encoded {
+            let decoded = match split_extended_value(&value) {
+                Ok((charset, text)) => Some(decode_parameter(text.to_vec(), charset)?),
+                Err(_) => None,
+            };
+            parameters.insert(name, decoded.map(Cow::Owned).unwrap_or(value));
         } else {
             parameters.insert(name, value);
         }
-- 
2.43.0


From 16930cac5df126776d2fed809c2338fbb495369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 13/17] fix: do not panic on the unassigned bytes of ISO-6937

A byte from 0x80 to 0x9F in an encoded word, an extended parameter or a
text body labelled iso-6937 panicked in textcode.
---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 13 +++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..d815916 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,16 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// Decodes ISO-6937 text. `textcode` panics on the bytes 0x80 to 0x9F, which are not assigned:
+/// give it another unassigned byte instead.
+pub(crate) fn decode_iso6937(input: &[u8]) -> String {
+    let input: Vec<u8> = input
+        .iter()
+        .map(|byte| match byte {
+            0x80..=0x9F => 0xC0,
+            byte => *byte,
+        })
+        .collect();
+    textcode::iso6937::decode_to_string(&input)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 485d41d..ea62621 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -81,7 +81,7 @@ pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Err
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From bd2f85ae0ece33688fce5205cbe77a44a07cb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 14/17] fix: accept comments and white space around encoded
 words in phrases

Like any other word of a phrase (RFC 2047, 5). An encoded word followed by
white space at the end of a group name or of a keyword, or next to a
comment, was not accepted.
---
 email-parser/src/parsing/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index cc2544b..b971f29 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -82,8 +82,10 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             input,
             &mut [
                 (|i| {
-                    let (i, _) = optional(i, fws);
-                    crate::parsing::mime::encoded_headers::encoded_word(i)
+                    let (i, _) = optional(i, cfws);
+                    let (i, word) = crate::parsing::mime::encoded_headers::encoded_word(i)?;
+                    let (i, _) = optional(i, cfws);
+                    Ok((i, word))
                 }),
                 (|i| crate::parsing::common::word(i)),
             ][..],
-- 
2.43.0


From 4ad7e4add61b6f28929dcce63504144ea8bc6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 15/17] fix: look for the closing boundary of a multipart first

Boundaries in the epilogue were taken for parts (and the closing boundary
looked for after them), and a closing boundary ending the input or directly
following another boundary was not seen.
---
 email-parser/src/parsing/mime/multipart.rs | 47 +++++++++++++++++-----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..9bb8681 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -44,14 +44,32 @@ fn before_boundary<'a, 'b>(input: &'a [u8], boundary: &'b [u8]) -> Res<'a, &'a [
 }
 
 fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
-    let full_boundary_len = 2 + 2 + boundary.len() + 2 + 2;
-    for idx in 0..input.len() {
-        // FIXME: ignore whitespaces after the boundary
-        if input.get(idx..idx + 4) == Some(b"\r\n--")
-            && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"--\r\n")
+    // The closing boundary ends its line or the input.
+    fn closing_boundary_len(input: &[u8], boundary: &[u8]) -> Option<usize> {
+        let len = 2 + boundary.len() + 2;
+        if input.get(..2) != Some(b"--")
+            || input.get(2..2 + boundary.len()) != Some(boundary)
+            || input.get(2 + boundary.len()..len) != Some(b"--")
         {
-            return Ok((idx, full_boundary_len));
+            return None;
+        }
+        match &input[len..] {
+            [] => Some(len),
+            end if end.starts_with(b"\r\n") => Some(len + 2),
+            _ => None,
+        }
+    }
+
+    // FIXME: ignore whitespaces after the boundary
+    if let Some(len) = closing_boundary_len(input, boundary) {
+        return Ok((0, len));
+    }
+
+    for idx in 0..input.len() {
+        if input.get(idx..idx + 2) == Some(b"\r\n") {
+            if let Some(len) = closing_boundary_len(&input[idx + 2..], boundary) {
+                return Ok((idx, 2 + len));
+            }
         }
     }
 
@@ -81,8 +99,19 @@ pub fn parse_multipart<'a>(
     let boundary = parameters
         .get("boundary")
         .ok_or(Error::Unknown("Missing boundary parameter"))?;
-    let (input, mut parts) = many(&input, |i| before_boundary(i, boundary.as_bytes()))?;
-    let (_epilogue, last_part) = before_closing_boundary(input, boundary.as_bytes())?;
+
+    // The boundaries found in the epilogue mean nothing.
+    let (_epilogue, before_closing) = before_closing_boundary(input, boundary.as_bytes())?;
+    // The CRLF before the closing boundary may also be the end of another boundary.
+    let input = match input[before_closing.len()..].starts_with(b"\r\n") {
+        true => &input[..before_closing.len() + 2],
+        false => before_closing,
+    };
+
+    let (mut last_part, mut parts) = many(input, |i| before_boundary(i, boundary.as_bytes()))?;
+    if last_part.ends_with(b"\r\n") {
+        last_part = &last_part[..last_part.len() - 2];
+    }
     parts.push(last_part);
     parts.remove(0); // the prelude
 
-- 
2.43.0


From a73a7fea6b7ecd6baa6554a3d01731a8a1d6fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 16/17] fix: decode quoted-printable in one pass instead of
 shifting the rest of the buffer at every escape (quadratic time)

---
 .../src/parsing/mime/quoted_printables.rs     | 59 +++++++++----------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/email-parser/src/parsing/mime/quoted_printables.rs b/email-parser/src/parsing/mime/quoted_printables.rs
index 6511252..43759fc 100644
--- a/email-parser/src/parsing/mime/quoted_printables.rs
+++ b/email-parser/src/parsing/mime/quoted_printables.rs
@@ -58,18 +58,20 @@ pub fn encode_qp(mut data: Vec<u8>) -> Vec<u8> {
     data
 }
 
-pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx) {
         if litteral_repr_possible(byte) || byte == &b' ' || byte == &b'\t' {
+            decoded.push(*byte);
             idx += 1;
         } else if byte == &b'=' {
             if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
+                idx += 3;
             } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
+                let first = data[idx + 1];
+                let second = data[idx + 2];
 
                 fn from_hex(n: u8) -> Option<u8> {
                     match n {
@@ -81,43 +83,41 @@ pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
                 }
 
                 if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
+                    decoded.push(first * 16 + second);
                 } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
+                    decoded.extend_from_slice(&[239, 191, 189]);
                 }
+                idx += 3;
             } else {
+                decoded.push(b'=');
                 idx += 1;
             }
         } else if byte == &b'\r' && data.get(idx + 1) == Some(&b'\n') {
+            decoded.extend_from_slice(b"\r\n");
             idx += 2;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice(&[239, 191, 189]);
+            idx += 1;
         }
     }
 
-    data
+    decoded
 }
 
-pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_header_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx).copied() {
         if byte == b'_' {
-            data[idx] = 0x20;
+            decoded.push(0x20);
             idx += 1;
         } else if byte == b'=' {
             if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
+                idx += 3;
             } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
+                let first = data[idx + 1];
+                let second = data[idx + 2];
 
                 fn from_hex(n: u8) -> Option<u8> {
                     match n {
@@ -129,28 +129,25 @@ pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
                 }
 
                 if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
+                    decoded.push(first * 16 + second);
                 } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
+                    decoded.extend_from_slice(&[239, 191, 189]);
                 }
+                idx += 3;
             } else {
+                decoded.push(b'=');
                 idx += 1;
             }
         } else if byte >= 0x20 && byte <= 0x7E {
+            decoded.push(byte);
             idx += 1;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice(&[239, 191, 189]);
+            idx += 1;
         }
     }
 
-    data
+    decoded
 }
 
 #[cfg(test)]
-- 
2.43.0


From ddb5196c29c728cf0c9b6346d7a4f4edcb13d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 17/17] fix: the mime feature compiles without
 content-disposition

---
 email-parser/src/parsing/mime/entity.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index a2716af..333b198 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -34,6 +34,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
+        #[cfg(feature = "content-disposition")]
         disposition,
         value,
         additional_headers,
-- 
2.43.0

