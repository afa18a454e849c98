From 742a44b074ba1c4ac7a51f8da7515dc3ff74e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 001/124] fix: regenerate the checksum of a PBO that has no
 properties header

---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..2b6edd4 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -177,22 +177,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From 3a2abb7786729150dedf15614ecd04f565dc4576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 002/124] fix: report a failed write of a large PBO file
 instead of panicking

---
 libs/pbo/src/write.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index fcfe538..bef7e89 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -182,12 +182,10 @@ impl<I: Seek + Read> WritablePbo<I> {
                     s.spawn(|| {
                         hasher.update(&*buffer);
                     });
-                    s.spawn(|| {
-                        buffered_output
-                            .write_all(&buffer)
-                            .expect("failed to write file");
-                    });
-                });
+                    s.spawn(|| buffered_output.write_all(&buffer))
+                        .join()
+                        .expect("writer thread should not panic")
+                })?;
             } else {
                 buffered_output.write_all(&buffer)?;
                 hasher.update(&buffer);
-- 
2.43.0


From 7351ef3fad0d95455c961f3ef290d409286aabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 003/124] fix: write files whose names differ only by case in a
 stable order

---
 libs/pbo/src/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index bef7e89..51763b5 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -91,6 +91,7 @@ impl<I: Seek + Read> WritablePbo<I> {
             a.filename()
                 .to_lowercase()
                 .cmp(&b.filename().to_lowercase())
+                .then_with(|| a.filename().cmp(b.filename()))
         });
         sorted
     }
-- 
2.43.0


From b4868488b515746c5449c6b36a34c7dc24fde0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 004/124] fix: find files of a PBO that stores forward slashes

---
 libs/pbo/src/read.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2b6edd4..fcb3a9c 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -12,6 +12,11 @@ use crate::{
     BISignVersion, ReadPbo, WritePbo,
 };
 
+/// Names are compared without regard to case or to the kind of slash
+fn normalized(name: &str) -> String {
+    name.replace('/', "\\").to_lowercase()
+}
+
 /// An existing PBO file that can be read from
 pub struct ReadablePbo<I: Seek + Read> {
     properties: IndexMap<String, String>,
@@ -77,7 +82,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn header(&self, name: &str) -> Option<&Header> {
         self.headers
             .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+            .find(|h| h.filename().replace('/', "\\") == name.replace('/', "\\"))
     }
 
     /// Get the PBO's properties
@@ -111,9 +116,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
+        let name = normalized(name);
         self.input.seek(SeekFrom::Start(self.blob_start))?;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if normalized(header.filename()) == name {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -127,9 +133,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
+        let name = normalized(name);
         let mut offset = self.blob_start;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if normalized(header.filename()) == name {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From 40ece3f2a760372e0338c31260bf93874f664c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 005/124] fix: locate PBO file data when a property is not
 valid UTF-8

---
 libs/pbo/src/read.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index fcb3a9c..aed58cf 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -35,21 +35,17 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn from(mut input: I) -> Result<Self, Error> {
         let mut properties = IndexMap::new();
         let mut headers = Vec::new();
-        let mut blob_start = 0;
         let mut vers_header = None;
         loop {
-            let (header, size) = Header::read_pbo(&mut input)?;
-            blob_start += size as u64;
+            let (header, _) = Header::read_pbo(&mut input)?;
             if header.mime() == &Mime::Vers {
                 vers_header = Some(header);
                 loop {
                     let key = input.read_cstring()?;
-                    blob_start += key.len() as u64 + 1;
                     if key.is_empty() {
                         break;
                     }
                     let value = input.read_cstring()?;
-                    blob_start += value.len() as u64 + 1;
                     properties.insert(key, value);
                 }
             } else if header.filename().is_empty() {
@@ -59,6 +55,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
             }
         }
 
+        // the strings may not be valid UTF-8, so their length can't be used to find the end of the headers
+        let blob_start = input.stream_position()?;
+
         for header in &headers {
             input.seek(SeekFrom::Current(i64::from(header.size())))?;
         }
-- 
2.43.0


From e5dd12774c08b7829ee1ae13fed14e49ef94753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 006/124] fix: verify signatures with the public key instead of
 the key stored in the signature

---
 libs/signing/src/public.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..ec37f34 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -123,7 +123,11 @@ impl BIPublicKey {
         let (real_hash1, real_hash2, real_hash3) =
             generate_hashes(pbo, signature.version, self.length)?;
 
-        let (signed_hash1, signed_hash2, signed_hash3) = signature.signatures_modpow();
+        // the key and exponent stored in the signature are not trusted, only this key is
+        let (sig1, sig2, sig3) = signature.signatures();
+        let signed_hash1 = sig1.modpow(&self.exponent, &self.n);
+        let signed_hash2 = sig2.modpow(&self.exponent, &self.n);
+        let signed_hash3 = sig3.modpow(&self.exponent, &self.n);
 
         if real_hash1 != signed_hash1 {
             let (s, r) = super::display_hashes(&signed_hash1, &real_hash1);
-- 
2.43.0


From 0e8c06aed3be5b72318356e92f93ee7764d408c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 007/124] fix: reject malformed public keys and signatures
 instead of panicking

---
 libs/signing/src/public.rs    | 13 ++++++++-----
 libs/signing/src/signature.rs |  9 ++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index ec37f34..5a890a2 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -73,10 +73,7 @@ impl BIPublicKey {
     /// Read a public key from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
+    /// If the reader fails to read, or the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,11 +83,17 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        // a shorter key can't hold a padded hash
+        if temp != length / 8 + 20 || length / 8 < 38 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
         let n = BigUint::from_bytes_le(&buffer);
+        if n == BigUint::default() {
+            return Err(Error::InvalidLength);
+        }
 
         Ok(Self {
             authority,
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..0f2507a 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -107,10 +107,7 @@ impl BISign {
     /// Read a signature from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
+    /// If the reader fails to read, or the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From 2251b9eff570249fffe4953d49096c7b9cfdb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 008/124] fix: return an error instead of writing past a small
 LZO output buffer

---
 libs/lzo/src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..63d5a93 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -50,6 +50,17 @@ pub enum LzoError {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
+    // the compressor does not check the size of its output
+    if output.capacity() < worst_compress(input.len()) {
+        let mut large = Vec::with_capacity(worst_compress(input.len()));
+        compress(input, &mut large)?;
+        if large.len() > output.capacity() {
+            return Err(LzoError::OutputOverrun);
+        }
+        output.clear();
+        output.extend_from_slice(&large);
+        return Ok(());
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = output.capacity();
@@ -74,10 +85,21 @@ pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
 
 #[cfg(feature = "compress")]
 /// returns a slice containing the compressed data
+/// returns an error if the slice is not large enough
 ///
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
+    // the compressor does not check the size of its output
+    if out.len() < worst_compress(in_.len()) {
+        let mut large = Vec::with_capacity(worst_compress(in_.len()));
+        compress(in_, &mut large)?;
+        let Some(fit) = out.get_mut(..large.len()) else {
+            return Err(LzoError::OutputOverrun);
+        };
+        fit.copy_from_slice(&large);
+        return Ok(fit);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = out.len();
-- 
2.43.0


From 2558c3dd6bd11e2648af94720bbfb3e7e72bfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 009/124] fix: reject math expressions with values not joined
 by an operator, accept a leading minus

A lone number followed by a space keeps its type, `1.0.0` is no longer read as 10, `5-0` no longer as 50, and `__EVAL` without brackets is reported instead of panicking.
---
 libs/common/src/math.rs        |  6 ++++--
 libs/config/src/parse/value.rs | 32 ++++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..51150f9 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -94,7 +94,9 @@ fn evaluate_postfix(tokens: &[Token]) -> Option<f64> {
         }
     }
 
-    stack.pop()
+    let result = stack.pop()?;
+    // values left over were not joined by an operator
+    stack.is_empty().then_some(result)
 }
 
 #[derive(Debug, Copy, Clone, PartialEq)]
@@ -134,7 +136,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..7f16ad8 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -16,8 +16,9 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
-        super::number::number().map(|n| n.to_string()),
         just("-".to_string()),
+        // the space keeps numbers without an operator between them separate
+        super::number::number().map(|n| format!("{n} ")),
         just("+".to_string()),
         just("*".to_string()),
         just("/".to_string()),
@@ -32,6 +33,13 @@ pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     .collect::<String>()
     .map(|s| s.trim().to_string())
     .try_map(|expr, span: Range<usize>| {
+        if expr.parse::<f64>().is_ok() {
+            // a lone number followed by a space keeps the type it is written with
+            return Err(Simple::custom(
+                span,
+                format!("{expr} is not a math expression"),
+            ));
+        }
         let number = Number::try_evaulation(&expr, span.clone());
         number.map_or_else(
             || {
@@ -57,13 +65,25 @@ pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
                     .at_least(1)
                     .collect::<String>())
         }))
-        .map_with_span(|expr, span| Expression {
-            value: expr
+        .try_map(|expr, span: Range<usize>| {
+            let value = expr
                 .strip_prefix('(')
                 .and_then(|s| s.strip_suffix(')'))
-                .expect("eval should be wrapped in brackets")
-                .to_string(),
-            span,
+                .map(ToString::to_string);
+            value.map_or_else(
+                || {
+                    Err(Simple::custom(
+                        span.clone(),
+                        "__EVAL must be followed by brackets",
+                    ))
+                },
+                |value| {
+                    Ok(Expression {
+                        value,
+                        span: span.clone(),
+                    })
+                },
+            )
         })
 }
 
-- 
2.43.0


From 062e5b82310a76faf0e757242e159f1d3db250d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 010/124] fix: point expected and unexpected array reports at
 the original source

Offsets of the original file were used as offsets of the processed text, which panicked or lost the report when they differ.
---
 .../src/analyze/lints/c06_unexpected_array.rs | 20 +++++------
 .../src/analyze/lints/c07_expected_array.rs   | 35 ++++++++++---------
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 5f46cb2..9146800 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -145,22 +145,18 @@ impl Code06UnexpectedArray {
         let array_file = processed
             .source(array_start.source())
             .expect("source should exist");
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
+        let array_end = processed
+            .mapping(array.span.end)
             .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..ident_end.original_start(),
-            processed,
-        );
+        self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
             diag.labels.push(
-                Label::secondary(array_file.0.clone(), array.span.clone())
-                    .with_message("unexpected array"),
+                Label::secondary(
+                    array_file.0.clone(),
+                    array_start.original_start()..array_end.original_start(),
+                )
+                .with_message("unexpected array"),
             );
         }
         self
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index ebdf5bf..7b497f5 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -157,26 +157,27 @@ impl Code07ExpectedArray {
         if let Value::Array(_) = value {
             panic!("Code07ExpectedArray::generate_processed called on non-Code07ExpectedArray property");
         }
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_file = processed
-            .source(ident_start.source())
-            .expect("source should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
-        let haystack = &processed.extract(ident_end.original_start()..value.span().start);
-        let possible_end = ident_end.original_start() + haystack.find(']').unwrap_or(1) + 1;
+        let haystack = &processed.extract(name.span.end..value.span().start);
+        let possible_end = name.span.end + haystack.find(']').unwrap_or(1) + 1;
         self.suggestion = Some(name.value.to_string());
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..possible_end,
-            processed,
-        );
+        self.diagnostic =
+            Diagnostic::from_code_processed(&self, name.span.start..possible_end, processed);
         if let Some(diag) = &mut self.diagnostic {
+            let value_start = processed
+                .mapping(value.span().start)
+                .expect("mapping should exist");
+            let value_end = processed
+                .mapping(value.span().end)
+                .expect("mapping should exist");
+            let value_file = processed
+                .source(value_start.source())
+                .expect("source should exist");
             diag.labels.push(
-                Label::secondary(ident_file.0.clone(), value.span()).with_message("not an array"),
+                Label::secondary(
+                    value_file.0.clone(),
+                    value_start.original_start()..value_end.original_start(),
+                )
+                .with_message("not an array"),
             );
         }
         self
-- 
2.43.0


From 5c315d4f9bb13744791270b78bb8589d71f40e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 011/124] fix: place reports at the end of files with non-ASCII
 characters

---
 libs/workspace/src/reporting/diagnostic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1c6088e..d93f528 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -66,10 +66,9 @@ impl Diagnostic {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
 
         // Error out out bounds, will never show, just use last char
-        if span.start == processed.as_str().len() {
-            span.start = processed.as_str().len() - 1;
-            span.end = processed.as_str().len() - 1;
-        }
+        let last = processed.as_str().chars().count().saturating_sub(1);
+        span.start = span.start.min(last);
+        span.end = span.end.min(last);
         let map_start = processed.mapping(span.start)?;
         let map_end = processed.mapping(span.end)?;
         let map_file = processed.source(map_start.source())?;
-- 
2.43.0


From 7a910aae7f32ec1ca4cfabbefd11affb921b96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 012/124] fix: do not start a block comment inside a string or
 a line comment

---
 libs/preprocessor/src/parse/mod.rs | 40 +++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..84563d1 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     WorkspacePath,
 };
 
-use pest::Parser;
+use pest::{error::InputLocation, Parser};
 use pest_derive::Parser;
 
 use crate::{codes::pe24_parsing_failed::ParsingFailed, Error};
@@ -25,8 +25,7 @@ pub struct PreprocessorParser;
 /// If the file is invalid
 pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let source = path.read_to_string()?;
-    let pairs = PreprocessorParser::parse(Rule::file, &source)
-        .map_err(|e| ParsingFailed::code(e, path.clone()))?;
+    let mut pairs = lex(&source, 0, path)?;
     let mut tokens = Vec::new();
     let mut line = 1;
     let mut col = 0;
@@ -34,8 +33,24 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let mut in_single_string = false;
     let mut in_double_string = false;
     let mut skipping_comment = false;
-    for pair in pairs {
+    while let Some(pair) = pairs.next() {
         let start = LineCol(offset, (line, col));
+        if pair.as_rule() == Rule::COMMENT
+            && pair.as_str().starts_with("/*")
+            && (in_single_string || in_double_string || skipping_comment)
+        {
+            // `/*` does not start a comment here, so what follows it are ordinary tokens
+            offset += 2;
+            col += 2;
+            if !skipping_comment {
+                tokens.push(Arc::new(Token::new(
+                    Symbol::Word("/*".to_string()),
+                    Position::new(start, LineCol(offset, (line, col)), path.clone()),
+                )));
+            }
+            pairs = lex(&source, offset, path)?;
+            continue;
+        }
         match pair.as_rule() {
             Rule::newline => {
                 if skipping_comment {
@@ -104,6 +119,23 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     Ok(tokens)
 }
 
+/// Split the source into tokens, starting at an offset
+fn lex<'a>(
+    source: &'a str,
+    offset: usize,
+    path: &WorkspacePath,
+) -> Result<pest::iterators::Pairs<'a, Rule>, Error> {
+    PreprocessorParser::parse(Rule::file, &source[offset..]).map_err(|mut e| {
+        e.location = match e.location {
+            InputLocation::Pos(pos) => InputLocation::Pos(pos + offset),
+            InputLocation::Span((start, end)) => {
+                InputLocation::Span((start + offset, end + offset))
+            }
+        };
+        ParsingFailed::code(e, path.clone())
+    })
+}
+
 trait Parse {
     fn to_symbol(pair: pest::iterators::Pair<Rule>) -> Self;
 }
-- 
2.43.0


From 158a31d1b3e0bd6f30a2ef40c6b4c4a86b9dc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 013/124] fix: store integers that do not fit 64 bits as a
 float instead of the largest integer

---
 libs/config/src/model/number.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..f415d77 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,13 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            // larger values do not fit an integer
+            if value.abs() < 9_223_372_036_854_775_808.0 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From 0675fa7daad5ecd928d52a45c8a00a444ace8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 014/124] fix: report an #else without #if, and a second #else
 after a nested #if

---
 libs/preprocessor/src/ifstate.rs | 65 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..5ecc491 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -2,7 +2,10 @@ use std::sync::Arc;
 
 use hemtt_workspace::reporting::Token;
 
-use crate::{codes::pe17_double_else::DoubleElse, Error};
+use crate::{
+    codes::{pe17_double_else::DoubleElse, pe1_unexpected_token::UnexpectedToken},
+    Error,
+};
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum IfState {
@@ -32,24 +35,30 @@ impl IfState {
     }
 }
 
+#[derive(Clone, Debug, Eq, PartialEq)]
+struct Level {
+    state: IfState,
+    did_else: Option<Arc<Token>>,
+}
+
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
-    stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    stack: Vec<Level>,
 }
 
 impl IfStates {
     pub fn reading(&self) -> bool {
-        self.stack.is_empty() || self.stack.iter().all(IfState::reading)
+        self.stack.iter().all(|level| level.state.reading())
     }
 
-    pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
-        self.stack.push(s);
+    pub fn push(&mut self, state: IfState) {
+        self.stack.push(Level {
+            state,
+            did_else: None,
+        });
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,39 +67,29 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
-        self.stack.pop()
+        self.stack.pop().map(|level| level.state)
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some(level) = self.stack.last_mut() else {
+            return Err(UnexpectedToken::code(
+                token.as_ref().clone(),
+                vec!["#if".to_string()],
+            ));
+        };
+        if let Some(previous) = &level.did_else {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                level.state.token().as_ref().clone(),
             ));
         }
-        if self
-            .stack
-            .iter()
-            .take(self.stack.len() - 1)
-            .all(IfState::reading)
-        {
-            if let Some(new) = match self.pop() {
-                Some(IfState::PassingChild(t)) => Some(IfState::PassingChild(t)),
-                Some(IfState::PassingIf(t)) => Some(IfState::ReadingElse(t)),
-                Some(IfState::ReadingIf(t)) => Some(IfState::PassingElse(t)),
-                Some(IfState::PassingElse(_) | IfState::ReadingElse(_)) | None => None,
-            } {
-                self.push(new);
-            }
-        }
-        self.did_else = Some(token);
+        level.state = match &level.state {
+            IfState::PassingIf(t) => IfState::ReadingElse(t.clone()),
+            IfState::ReadingIf(t) => IfState::PassingElse(t.clone()),
+            state => state.clone(),
+        };
+        level.did_else = Some(token);
         Ok(())
     }
 }
-- 
2.43.0


From 5dd32579d9b18f9c3639620eda9c942bc17f7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 015/124] fix: compare macro values in #if without the
 whitespace and comments around them

---
 libs/preprocessor/src/processor/directives.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..0d5437d 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -346,7 +346,11 @@ impl Processor {
             token: Arc<Token>,
         ) -> Result<(Vec<Arc<Token>>, bool), Error> {
             if let Some((_, definition, _)) = defines.get_with_gen(&token, Some(token.position())) {
-                if let Definition::Value(tokens) = definition {
+                if let Definition::Value(mut tokens) = definition {
+                    // whitespace and comments around the value are not part of it
+                    let value = |t: &Arc<Token>| !t.symbol().is_whitespace();
+                    tokens.truncate(tokens.iter().rposition(value).map_or(0, |i| i + 1));
+                    tokens.drain(..tokens.iter().position(value).unwrap_or(0));
                     return Ok((tokens, true));
                 }
                 return Err(IfUnitOrFunction::code(
-- 
2.43.0


From 3e1cc2ee0e9a452bba35c6085d164a86ad23ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 016/124] fix: keep a # at the start of a line that does not
 start a directive

---
 libs/preprocessor/src/processor/directives.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 0d5437d..9f135c5 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -39,16 +39,14 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<bool, Error> {
-        if let Some(token) = stream.peek() {
-            if token.symbol().is_directive() {
-                stream.next();
-                if let Some(command) = stream.peek() {
-                    if command.symbol().is_word() {
-                        self.directive_command(pragma, stream, buffer)?;
-                        return Ok(true);
-                    }
-                }
+        if stream.peek().is_some_and(|t| t.symbol().is_directive()) {
+            let token = stream.next().expect("was peeked");
+            if stream.peek().is_some_and(|t| t.symbol().is_word()) {
+                self.directive_command(pragma, stream, buffer)?;
+                return Ok(true);
             }
+            // a `#` that does not start a directive, like the select operator
+            self.output(token, buffer);
         }
         Ok(false)
     }
-- 
2.43.0


From 81eee37b595c8d966ac77a1af9ab79289f592e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 017/124] fix: do not join the last line of an included file
 with the line after the include

---
 libs/preprocessor/src/processor/directives.rs | 32 +++++++++++++++----
 libs/preprocessor/src/processor/whitespace.rs | 11 ++++---
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 9f135c5..f0a5ca4 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -190,12 +190,15 @@ impl Processor {
             path.push(token);
         }
 
-        if let Err(Error::Code(code)) = Self::expect_nothing_to_newline(stream) {
-            if let Some(token) = code.token() {
-                return Err(IncludeUnexpectedSuffix::code(token.clone()));
+        let newline = match Self::expect_nothing_to_newline(stream) {
+            Err(Error::Code(code)) => {
+                if let Some(token) = code.token() {
+                    return Err(IncludeUnexpectedSuffix::code(token.clone()));
+                }
+                return Err(Error::Code(code));
             }
-            return Err(Error::Code(code));
-        }
+            newline => newline?,
+        };
 
         let current = self
             .file_stack
@@ -226,8 +229,21 @@ impl Processor {
         self.file_stack.push(path.clone());
         self.included_files.push(path);
         let mut stream = tokens.into_iter().peekmore();
+        let before = buffer.len();
         let ret = self.file(&mut pragma.child(), &mut stream, buffer);
         self.file_stack.pop();
+        // the last line of the file must not run into the line after the include
+        if let Some(newline) = newline {
+            if buffer[before..]
+                .iter()
+                .rev()
+                .map(Output::last_symbol)
+                .find(|s| !s.is_some_and(Symbol::is_whitespace))
+                .is_some_and(|s| !s.is_some_and(Symbol::is_newline))
+            {
+                self.output(newline, buffer);
+            }
+        }
         ret
     }
 
@@ -312,7 +328,8 @@ impl Processor {
         }
         let ident_string = ident.symbol().to_string();
         self.defines.remove(&ident_string);
-        Self::expect_nothing_to_newline(stream)
+        Self::expect_nothing_to_newline(stream)?;
+        Ok(())
     }
 
     #[allow(clippy::too_many_lines)]
@@ -499,7 +516,8 @@ impl Processor {
         let ident_string = ident.symbol().to_string();
         self.ifstates
             .push_if(command, self.defines.contains_key(&ident_string) == outcome);
-        Self::expect_nothing_to_newline(stream)
+        Self::expect_nothing_to_newline(stream)?;
+        Ok(())
     }
 }
 
diff --git a/libs/preprocessor/src/processor/whitespace.rs b/libs/preprocessor/src/processor/whitespace.rs
index 073af54..15cbad7 100644
--- a/libs/preprocessor/src/processor/whitespace.rs
+++ b/libs/preprocessor/src/processor/whitespace.rs
@@ -51,12 +51,15 @@ impl Processor {
 
     /// Expect no content until the next newline
     /// Whitespace is allowed, but nothing else
-    /// The stream is left after the newline
+    /// The stream is left after the newline, which is returned if there is one
     pub(crate) fn expect_nothing_to_newline(
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
-    ) -> Result<(), Error> {
+    ) -> Result<Option<Arc<Token>>, Error> {
         for token in stream.by_ref() {
-            if token.symbol().is_newline() || token.symbol().is_eoi() {
+            if token.symbol().is_newline() {
+                return Ok(Some(token));
+            }
+            if token.symbol().is_eoi() {
                 break;
             }
             if !token.symbol().is_whitespace() {
@@ -66,7 +69,7 @@ impl Processor {
                 ));
             }
         }
-        Ok(())
+        Ok(None)
     }
 }
 
-- 
2.43.0


From 66aa393f1da51c28a1b6cd84f3ae7b284e040326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 018/124] fix: report a macro call that is not closed before
 the end of the file

---
 libs/preprocessor/src/processor/defines.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..56b29ff 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -10,7 +10,8 @@ use crate::{
     codes::{
         pe10_function_as_value::FunctionAsValue,
         pe11_expected_function_or_value::ExpectedFunctionOrValue,
-        pe1_unexpected_token::UnexpectedToken, pe5_define_multitoken_argument::DefineMissingComma,
+        pe1_unexpected_token::UnexpectedToken, pe2_unexpected_eof::UnexpectedEOF,
+        pe5_define_multitoken_argument::DefineMissingComma,
         pe9_function_call_argument_count::FunctionCallArgumentCount, pw3_padded_arg::PaddedArg,
     },
     defines::DefineSource,
@@ -50,6 +51,9 @@ impl Processor {
         let mut arg = Vec::new();
         while let Some(token) = stream.peek() {
             let symbol = token.symbol();
+            if symbol.is_eoi() {
+                return Err(UnexpectedEOF::code(token.as_ref().clone()));
+            }
             if quotes {
                 if symbol.is_double_quote() {
                     quotes = false;
-- 
2.43.0


From 1a4c16afa77d4ce539e45ca43a50353ea3261bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 019/124] fix: keep the end of a file that ends in a line
 comment

---
 libs/preprocessor/src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index 84563d1..d4fe357 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -107,7 +107,7 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
             }
         }
         offset += pair.as_str().len();
-        if skipping_comment {
+        if skipping_comment && pair.as_rule() != Rule::EOI {
             continue;
         }
         let end = LineCol(offset, (line, col));
-- 
2.43.0


From 5431b205288fa1807ea4289c11f407a410b49ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 020/124] fix: count an empty last argument of a macro call

---
 libs/preprocessor/src/processor/defines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 56b29ff..57bb5b2 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -92,7 +92,7 @@ impl Processor {
             }
             arg.push(stream.next().expect("peeked above"));
         }
-        if !arg.is_empty() {
+        if !arg.is_empty() || !args.is_empty() {
             args.push(arg);
         }
         Ok(Some(args))
-- 
2.43.0


From 60c95c3c938f6b25035a32443ac68ed98b94bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 021/124] fix: do not expand a macro again within its own
 expansion

---
 libs/preprocessor/src/defines.rs           | 23 ++++++++++++++++++++++
 libs/preprocessor/src/processor/defines.rs |  6 +++++-
 libs/preprocessor/src/processor/mod.rs     |  2 +-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..a35fc0a 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -23,6 +23,7 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
+    expanding: Vec<Arc<str>>,
     counter: u16,
 }
 
@@ -91,6 +92,28 @@ impl Defines {
         self.global.contains_key(key)
     }
 
+    /// Check if a word should be expanded
+    ///
+    /// A macro is not expanded again while it is being expanded,
+    /// an argument can have the same name as such a macro
+    pub fn can_expand(&self, key: &str) -> bool {
+        let is_argument = self
+            .stack
+            .last()
+            .is_some_and(|(_, args)| args.contains_key(key));
+        self.contains_key(key) && (is_argument || !self.expanding.iter().any(|e| **e == *key))
+    }
+
+    /// A macro is being expanded
+    pub fn start_expanding(&mut self, key: &str) {
+        self.expanding.push(Arc::from(key));
+    }
+
+    /// The last macro to be expanded is done
+    pub fn stop_expanding(&mut self) {
+        self.expanding.pop();
+    }
+
     #[allow(clippy::too_many_lines)]
     pub fn get_with_gen(
         &mut self,
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 57bb5b2..d487b64 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -62,7 +62,7 @@ impl Processor {
                 continue;
             }
             if let Symbol::Word(word) = symbol {
-                if self.defines.contains_key(word) {
+                if self.defines.can_expand(word) {
                     let mut inner = Vec::new();
                     self.define_use(callsite, pragma, stream, &mut inner)?;
                     arg.append(
@@ -267,6 +267,7 @@ impl Processor {
                     );
                 }
                 self.defines.push(&ident_string, arg_defines);
+                self.defines.start_expanding(&ident_string);
                 let mut layer = Vec::new();
                 self.walk(
                     Some(callsite),
@@ -276,6 +277,7 @@ impl Processor {
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
+                self.defines.stop_expanding();
                 self.defines.pop();
             }
             #[allow(clippy::needless_collect)] // causes recursion at runtime otherwise
@@ -289,6 +291,7 @@ impl Processor {
                 } else {
                     let mut layer = Vec::new();
                     let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    self.defines.start_expanding(&ident_string);
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
@@ -296,6 +299,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.defines.stop_expanding();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..ce34063 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -160,7 +160,7 @@ impl Processor {
                         return Err(BuiltInNotSupported::code((**token).clone()));
                     }
                     just_whitespace = false;
-                    if Some(w.as_str()) != in_macro && self.defines.contains_key(w) {
+                    if Some(w.as_str()) != in_macro && self.defines.can_expand(w) {
                         let token = token.clone();
                         self.define_use(
                             callsite.unwrap_or_else(|| token.position()),
-- 
2.43.0


From c3be679ec5eabc1a8deb9f81badb7e9c2acc91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 022/124] fix: define __ARMA__ and __ARMA3__

---
 libs/preprocessor/src/defines.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index a35fc0a..072248a 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -78,7 +78,7 @@ impl Defines {
     }
 
     pub fn contains_key(&self, key: &str) -> bool {
-        if BUILTIN_GEN.contains(&key) {
+        if BUILTIN_GEN.contains(&key) || BUILTIN_CONST.iter().any(|(k, _)| *k == key) {
             return true;
         }
         if let Some(last) = self.stack.last() {
@@ -121,6 +121,16 @@ impl Defines {
         site: Option<&Position>,
     ) -> Option<(Arc<Token>, Definition, DefineSource)> {
         let ident = key.to_string();
+        if let Some((_, value)) = BUILTIN_CONST.iter().find(|(k, _)| *k == ident) {
+            return Some((
+                key.clone(),
+                Definition::Value(vec![Arc::new(Token::new(
+                    Symbol::Digit((*value).into()),
+                    key.position().clone(),
+                ))]),
+                DefineSource::Generated,
+            ));
+        }
         if let Some(site) = site {
             if BUILTIN_GEN.contains(&ident.as_str()) {
                 match ident.as_str() {
-- 
2.43.0


From 606c4c5e73cde4efd21ab2e738930f55429d192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 023/124] fix: drop ## after a string that contains a quote of
 the other kind

---
 libs/workspace/src/reporting/processed.rs | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 35f2c89..017178e 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -64,22 +64,21 @@ fn append_token(
             Ok,
         )?;
     if token.symbol().is_double_quote() {
-        if string_stack.is_empty() {
-            string_stack.push('"');
-        } else if string_stack.last().expect("string stack is empty") == &'"' {
-            string_stack.pop();
-        } else {
-            string_stack.push('"');
+        // a quote of the other kind inside a string is a part of it
+        match string_stack.last() {
+            None => string_stack.push('"'),
+            Some('"') => {
+                string_stack.pop();
+            }
+            Some(_) => {}
         }
     } else if token.symbol().is_single_quote() {
-        if string_stack.is_empty() {
-            string_stack.push('\'');
-        } else if string_stack.last().expect("string stack is empty") == &'\''
-            && token.position().start().0 != token.position().end().0
-        {
-            string_stack.pop();
-        } else {
-            string_stack.push('\'');
+        match string_stack.last() {
+            None => string_stack.push('\''),
+            Some('\'') if token.position().start().0 != token.position().end().0 => {
+                string_stack.pop();
+            }
+            Some(_) => {}
         }
     }
     if token.symbol().is_newline() {
-- 
2.43.0


From a97236f6a578213221cb3e34d274ac77bcc3d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 024/124] fix: stringize in macros that are defined after their
 use, in a file that is included again

---
 libs/preprocessor/src/processor/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index ce34063..3237cf5 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -190,15 +190,12 @@ impl Processor {
                         }
                     }
                     let token = stream.next().expect("peeked above");
+                    // the tokens of a macro are always from its definition, not from the root arguments
                     if in_macro.is_some()
-                    && stream.peek().is_some_and(|t| t.symbol().is_word() && self.defines.contains_key(&t.symbol().to_string()))
-                        // check if the # token is from another file, or defined before the callsite, ie not in the root arguments
-                        && (token.position().path() != callsite.expect(
-                            "callsite should exist if in_macro is some"
-                        ).path()
-                            || token.position().start().0 < callsite.expect(
-                            "callsite should exist if in_macro is some"
-                            ).start().0)
+                        && stream.peek().is_some_and(|t| {
+                            t.symbol().is_word()
+                                && self.defines.contains_key(&t.symbol().to_string())
+                        })
                     {
                         self.output(
                             Arc::new(Token::new(Symbol::DoubleQuote, token.position().clone())),
-- 
2.43.0


From b69dd5db8e46bb77e9910d9f424c0d047eb924d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 025/124] fix: show the report for an include without any
 quotes

---
 libs/preprocessor/src/codes/pe13_include_not_encased.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/codes/pe13_include_not_encased.rs b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
index 01e6b6c..88cb9e4 100644
--- a/libs/preprocessor/src/codes/pe13_include_not_encased.rs
+++ b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
@@ -55,7 +55,7 @@ impl Code for IncludeNotEncased {
     }
 
     fn diagnostic(&self) -> Option<Diagnostic> {
-        let start = self.start.as_ref()?;
+        let start = self.start.as_ref().unwrap_or(&self.token);
         let end = self.token.as_ref();
         let mut diag = Diagnostic::new(self.ident(), self.message()).with_label(
             Label::primary(
-- 
2.43.0


From 8fe83c503850761ac1ebe1130ffd3ae854e71d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 026/124] fix: end the flags of a line after the line

---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From 690947afbf1517cd266cea73b286e3619867775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 027/124] fix: report a file that includes itself without an
 end

---
 .../src/codes/pe27_include_depth.rs           | 59 +++++++++++++++++++
 libs/preprocessor/src/processor/directives.rs | 15 +++--
 2 files changed, 70 insertions(+), 4 deletions(-)
 create mode 100644 libs/preprocessor/src/codes/pe27_include_depth.rs

diff --git a/libs/preprocessor/src/codes/pe27_include_depth.rs b/libs/preprocessor/src/codes/pe27_include_depth.rs
new file mode 100644
index 0000000..335bde1
--- /dev/null
+++ b/libs/preprocessor/src/codes/pe27_include_depth.rs
@@ -0,0 +1,59 @@
+use std::sync::Arc;
+
+use hemtt_workspace::reporting::{Code, Diagnostic, Label, Token};
+
+use crate::Error;
+
+/// Includes are nested too deep
+pub struct IncludeDepth {
+    /// The target that was not included
+    token: Vec<Token>,
+}
+
+impl Code for IncludeDepth {
+    fn ident(&self) -> &'static str {
+        "PE27"
+    }
+
+    fn message(&self) -> String {
+        "includes are nested too deep".to_string()
+    }
+
+    fn label_message(&self) -> String {
+        "not included".to_string()
+    }
+
+    fn help(&self) -> Option<String> {
+        Some("does the file include itself?".to_string())
+    }
+
+    fn diagnostic(&self) -> Option<Diagnostic> {
+        let first = self.token.first()?;
+        let last = self.token.last()?;
+        let mut diag = Diagnostic::new(self.ident(), self.message()).with_label(
+            Label::primary(
+                first.position().path().clone(),
+                first.position().span().start..last.position().span().end,
+            )
+            .with_message(self.label_message()),
+        );
+        if let Some(help) = self.help() {
+            diag = diag.with_help(help);
+        }
+        Some(diag)
+    }
+}
+
+impl IncludeDepth {
+    #[must_use]
+    pub fn new(token: Vec<Arc<Token>>) -> Self {
+        Self {
+            token: token.into_iter().map(|t| t.as_ref().clone()).collect(),
+        }
+    }
+
+    #[must_use]
+    pub fn code(token: Vec<Arc<Token>>) -> Error {
+        Error::Code(Arc::new(Self::new(token)))
+    }
+}
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index f0a5ca4..3ace132 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -15,10 +15,10 @@ use crate::{
         pe15_if_invalid_operator::IfInvalidOperator,
         pe16_if_incompatible_types::IfIncompatibleType, pe19_pragma_unknown::PragmaUnknown,
         pe20_pragma_invalid_scope::PragmaInvalidScope, pe23_if_has_include::IfHasInclude,
-        pe2_unexpected_eof::UnexpectedEOF, pe3_expected_ident::ExpectedIdent,
-        pe4_unknown_directive::UnknownDirective, pe6_change_builtin::ChangeBuiltin,
-        pe7_if_unit_or_function::IfUnitOrFunction, pe8_if_undefined::IfUndefined,
-        pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
+        pe27_include_depth::IncludeDepth, pe2_unexpected_eof::UnexpectedEOF,
+        pe3_expected_ident::ExpectedIdent, pe4_unknown_directive::UnknownDirective,
+        pe6_change_builtin::ChangeBuiltin, pe7_if_unit_or_function::IfUnitOrFunction,
+        pe8_if_undefined::IfUndefined, pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
     },
     defines::{DefineSource, Defines},
     definition::{Definition, FunctionDefinition},
@@ -32,6 +32,9 @@ use super::{
     Processor,
 };
 
+/// Files that are open at the same time, through includes
+const MAX_INCLUDE_DEPTH: usize = 128;
+
 impl Processor {
     pub(crate) fn directive(
         &mut self,
@@ -200,6 +203,10 @@ impl Processor {
             newline => newline?,
         };
 
+        // a file that includes itself would never end
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(IncludeDepth::code(path));
+        }
         let current = self
             .file_stack
             .last()
-- 
2.43.0


From 2393fc2aad149c5a880557b2867a98d98bb9e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 028/124] fix: report a condition that is cut short by the end
 of the file, or has no value

---
 .../src/codes/pe7_if_unit_or_function.rs      | 16 +++++++---------
 libs/preprocessor/src/processor/directives.rs | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs b/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
index f258f6a..667200c 100644
--- a/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
+++ b/libs/preprocessor/src/codes/pe7_if_unit_or_function.rs
@@ -75,9 +75,6 @@ impl Code for IfUnitOrFunction {
 impl IfUnitOrFunction {
     #[must_use]
     /// Create a new instance of `IfUnitOrFunction`
-    /// 
-    /// # Panics
-    /// Panics if the token does not define anything in the defines
     pub fn new(token: Box<Token>, defines: &Defines) -> Self {
         Self {
             similar: defines
@@ -85,12 +82,13 @@ impl IfUnitOrFunction {
                 .iter()
                 .map(std::string::ToString::to_string)
                 .collect(),
-            defined: {
-                let (t, d, _) = defines
-                    .get_readonly(token.symbol().to_string().trim())
-                    .expect("define should exist on error about its type");
-                (t.as_ref().clone(), d.is_unit())
-            },
+            defined: defines
+                .get_readonly(token.symbol().to_string().trim())
+                .map_or_else(
+                    // macros that are generated have no definition
+                    || (token.as_ref().clone(), true),
+                    |(t, d, _)| (t.as_ref().clone(), d.as_function().is_none()),
+                ),
             token,
         }
     }
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 3ace132..67ac250 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -355,7 +355,10 @@ impl Processor {
                     .peek()
                     .expect("peeked in the if statement, so there should be a token")
                     .clone();
-                if token.symbol().is_whitespace() || token.symbol().is_newline() {
+                if token.symbol().is_whitespace()
+                    || token.symbol().is_newline()
+                    || token.symbol().is_eoi()
+                {
                     break;
                 }
                 tokens.push(token);
@@ -373,7 +376,9 @@ impl Processor {
                     let value = |t: &Arc<Token>| !t.symbol().is_whitespace();
                     tokens.truncate(tokens.iter().rposition(value).map_or(0, |i| i + 1));
                     tokens.drain(..tokens.iter().position(value).unwrap_or(0));
-                    return Ok((tokens, true));
+                    if !tokens.is_empty() {
+                        return Ok((tokens, true));
+                    }
                 }
                 return Err(IfUnitOrFunction::code(
                     token.as_ref().clone(),
@@ -423,7 +428,9 @@ impl Processor {
         self.skip_whitespace(stream, None);
         #[allow(unused_assignments)]
         let mut operators = Vec::new();
-        let (right, right_defined) = if stream.peek().map(|t| t.symbol()) == Some(&Symbol::Newline)
+        let (right, right_defined) = if stream
+            .peek()
+            .is_some_and(|t| t.symbol().is_newline() || t.symbol().is_eoi())
         {
             let pos = stream
                 .peek()
@@ -442,11 +449,7 @@ impl Processor {
             let right = read_value(stream);
             if right.is_empty() {
                 return Err(UnexpectedEOF::code(
-                    operators
-                        .last()
-                        .expect("right should exists at this point")
-                        .as_ref()
-                        .clone(),
+                    operators.last().unwrap_or(&command).as_ref().clone(),
                 ));
             }
             if right.len() == 1 {
-- 
2.43.0


From fb7b6197188da87fbe3bacc2f485c7b2eff45152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 029/124] fix: report a macro whose body ends in an incomplete
 call or directive

---
 libs/preprocessor/src/processor/defines.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index d487b64..00b853f 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -36,12 +36,8 @@ impl Processor {
         pragma: &mut Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Option<Vec<Vec<Arc<Token>>>>, Error> {
-        if !stream
-            .peek()
-            .expect("peeked by caller")
-            .symbol()
-            .is_left_paren()
-        {
+        // the name may be the last token of the body of another macro
+        if !stream.peek().is_some_and(|t| t.symbol().is_left_paren()) {
             return Ok(None);
         }
         stream.next().expect("peeked above");
@@ -211,6 +207,8 @@ impl Processor {
             buffer.push(Output::Direct(ident));
             return Ok(());
         };
+        // the body ends like a file does
+        let end = Arc::new(Token::new(Symbol::Eoi, ident.position().clone()));
         match body {
             Definition::Function(function) => {
                 let Some(args) = self.call_read_args(callsite, pragma, stream)? else {
@@ -273,7 +271,7 @@ impl Processor {
                     Some(callsite),
                     Some(&ident_string),
                     pragma,
-                    &mut function.stream(),
+                    &mut function.stream().chain([end]).peekmore(),
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
@@ -296,7 +294,7 @@ impl Processor {
                         Some(callsite),
                         Some(&ident_string),
                         pragma,
-                        &mut body.into_iter().peekmore(),
+                        &mut body.into_iter().chain([end]).peekmore(),
                         &mut layer,
                     )?;
                     self.defines.stop_expanding();
@@ -309,11 +307,7 @@ impl Processor {
                 return Err(ExpectedFunctionOrValue::code(
                     ident.as_ref().clone(),
                     source.as_ref().clone(),
-                    stream
-                        .peek()
-                        .expect("peeked by caller")
-                        .symbol()
-                        .is_left_paren(),
+                    stream.peek().is_some_and(|t| t.symbol().is_left_paren()),
                 ));
             }
         };
-- 
2.43.0


From 93cc5d45934facfa6cc4e0322c960f53c600eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 030/124] fix: report a macro that is defined again at the same
 place of the main file

---
 libs/preprocessor/src/codes/pw1_redefine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/codes/pw1_redefine.rs b/libs/preprocessor/src/codes/pw1_redefine.rs
index 0509492..1c4e34a 100644
--- a/libs/preprocessor/src/codes/pw1_redefine.rs
+++ b/libs/preprocessor/src/codes/pw1_redefine.rs
@@ -45,8 +45,8 @@ impl Code for RedefineMacro {
         let last_original = original.last().unwrap_or(&"");
         let first_token = token.first().unwrap_or(&"");
         let last_token = token.last().unwrap_or(&"");
-        let original = original.iter().skip(1).take(original.len() - 2).collect::<Vec<_>>();
-        let token = token.iter().skip(1).take(token.len() - 2).collect::<Vec<_>>();
+        let original = original.iter().skip(1).take(original.len().saturating_sub(2)).collect::<Vec<_>>();
+        let token = token.iter().skip(1).take(token.len().saturating_sub(2)).collect::<Vec<_>>();
         let original = original.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         let token = token.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         Some(format!(
-- 
2.43.0


From 383c6a917736761c2ca79cd7735d033a0a154a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 031/124] fix: decode compressed mipmaps that are not a
 multiple of four pixels

---
 libs/paa/src/mipmap.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..132acdf 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,11 +84,10 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
+        let img_size = self
+            .format
+            .compressed_size(usize::from(width_2), usize::from(self.height));
+        let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
         let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-- 
2.43.0


From a8b8ed19560dd7ef99432b861002843b0dae714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 032/124] fix: decode mipmaps with a height that is not a
 multiple of four

---
 libs/paa/src/mipmap.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 132acdf..54cc62b 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -88,23 +88,18 @@ impl MipMap {
             .format
             .compressed_size(usize::from(width_2), usize::from(self.height));
         let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
-        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
+        // the decoder only supports whole blocks in the last row
+        let rows = usize::from(self.height).next_multiple_of(4);
+        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * rows];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-            self.format.decompress(
-                &buffer,
-                usize::from(width_2),
-                usize::from(self.height),
-                &mut out_buffer,
-            );
+            self.format
+                .decompress(&buffer, usize::from(width_2), rows, &mut out_buffer);
         } else {
-            self.format.decompress(
-                data,
-                usize::from(width_2),
-                usize::from(self.height),
-                &mut out_buffer,
-            );
+            self.format
+                .decompress(data, usize::from(width_2), rows, &mut out_buffer);
         };
+        out_buffer.truncate(4 * (width_2 as usize) * usize::from(self.height));
         image::DynamicImage::ImageRgba8(
             image::RgbaImage::from_raw(u32::from(width_2), u32::from(self.height), out_buffer)
                 .expect("paa should contain valid image data"),
-- 
2.43.0


From 562c20d7f41134438153b2c3c0509e79f763a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 033/124] fix: report an unsupported image format instead of
 panicking

---
 libs/paa/src/paa.rs |  9 +++++++--
 libs/paa/src/pax.rs | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..8b68133 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -88,9 +88,14 @@ impl Paa {
                     seek.clone_from_slice(&offs[p..p + 4]);
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
+                        let format = paa.format.image_format().ok_or_else(|| {
+                            Error::new(
+                                std::io::ErrorKind::InvalidData,
+                                format!("unsupported paa format {}", paa.format),
+                            )
+                        })?;
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
-                        paa.maps
-                            .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
+                        paa.maps.push(MipMap::from_stream(format, &mut input)?);
                     }
                 }
             }
diff --git a/libs/paa/src/pax.rs b/libs/paa/src/pax.rs
index 3e60ad9..c969c60 100644
--- a/libs/paa/src/pax.rs
+++ b/libs/paa/src/pax.rs
@@ -57,14 +57,21 @@ impl PaXType {
     }
 }
 
+impl PaXType {
+    /// The format of the images, if it is supported
+    pub(crate) const fn image_format(&self) -> Option<Format> {
+        match self {
+            Self::DXT1 => Some(Format::Bc1),
+            Self::DXT3 => Some(Format::Bc2),
+            Self::DXT5 => Some(Format::Bc3),
+            _ => None,
+        }
+    }
+}
+
 impl From<PaXType> for Format {
     fn from(pax: PaXType) -> Self {
-        match pax {
-            PaXType::DXT1 => Self::Bc1,
-            PaXType::DXT3 => Self::Bc2,
-            PaXType::DXT5 => Self::Bc3,
-            _ => unimplemented!(),
-        }
+        pax.image_format().unwrap_or_else(|| unimplemented!())
     }
 }
 
-- 
2.43.0


From 33eb49b82153e723043a2f8e9e9cd0b522db3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 034/124] fix: write the average colour of an image under its
 name, in the order of the format

---
 libs/paa/src/paa.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 8b68133..4848d87 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -117,7 +117,7 @@ impl Paa {
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
-        output.write_all(b"GGATAVGC")?; // 8
+        output.write_all(b"GGATCGVA")?; // 8
         output.write_u32::<LittleEndian>(size_of::<u32>() as u32)?; // 4
         let avg_color = image
             .pixels()
@@ -137,9 +137,9 @@ impl Paa {
                 acc
             });
         output.write_u32::<LittleEndian>(u32::from_le_bytes([
-            (avg_color[0] / (image.width() * image.height())) as u8,
-            (avg_color[1] / (image.width() * image.height())) as u8,
             (avg_color[2] / (image.width() * image.height())) as u8,
+            (avg_color[1] / (image.width() * image.height())) as u8,
+            (avg_color[0] / (image.width() * image.height())) as u8,
             (avg_color[3] / (image.width() * image.height())) as u8,
         ]))?; // 4
 
@@ -156,7 +156,12 @@ impl Paa {
                 acc[3] = acc[3].max(p[3]);
                 acc
             });
-        output.write_u32::<LittleEndian>(u32::from_le_bytes(max_color))?; // 4
+        output.write_u32::<LittleEndian>(u32::from_le_bytes([
+            max_color[2],
+            max_color[1],
+            max_color[0],
+            max_color[3],
+        ]))?; // 4
 
         // Offset Table
         output.write_all(b"GGATSFFO")?; // 8
-- 
2.43.0


From 02bbef83b12efb7096c1e6637dda4a6b414f4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 035/124] fix: report an image that does not fit the format
 instead of panicking

---
 libs/paa/src/paa.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 4848d87..2c90095 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -111,9 +111,25 @@ impl Paa {
     /// Write the Paa to the given output
     ///
     /// # Errors
-    /// [`std::io::Error`] if the output is not writable
+    /// [`std::io::Error`] if the output is not writable, or the image is empty or too large
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        // The highest bit of the width marks a compressed image, the size of the data has 24 bits
+        if image.width() == 0
+            || image.height() == 0
+            || image.width() >= 1 << 15
+            || image.height() >= 1 << 16
+            || algo.compressed_size(image.width() as usize, image.height() as usize) >= 1 << 24
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "a paa cannot hold an image of {}x{}",
+                    image.width(),
+                    image.height()
+                ),
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
-- 
2.43.0


From a14ff76e5e65d4aa248fe6544dc3761bfc3f5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:22 +0000
Subject: [PATCH 036/124] fix: report a failed write at the end of a P3D

---
 libs/p3d/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..b9f2245 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -77,6 +77,8 @@ impl P3D {
             lod.write(&mut writer)?;
         }
 
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 02360b3672c8df96e1d1faede9bcf7a890500b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 037/124] fix: keep every tagg of a LOD when a name is used
 more than once

---
 libs/p3d/src/lod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..d45d121 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -2,7 +2,6 @@ use std::io::{Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use hemtt_common::io::{ReadExt, WriteExt};
-use indexmap::IndexMap;
 
 use crate::{Error, Face, Point};
 
@@ -14,7 +13,8 @@ pub struct LOD {
     pub points: Vec<Point>,
     pub face_normals: Vec<(f32, f32, f32)>,
     pub faces: Vec<Face>,
-    pub taggs: IndexMap<String, Box<[u8]>>,
+    /// In the order of the file, a name can be used more than once
+    pub taggs: Vec<(String, Box<[u8]>)>,
 }
 
 impl LOD {
@@ -67,7 +67,7 @@ impl LOD {
             ));
         }
 
-        let mut taggs: IndexMap<String, Box<[u8]>> = IndexMap::new();
+        let mut taggs: Vec<(String, Box<[u8]>)> = Vec::new();
 
         loop {
             input.bytes().next();
@@ -81,7 +81,7 @@ impl LOD {
                 break;
             }
 
-            taggs.insert(name, buffer);
+            taggs.push((name, buffer));
         }
 
         let resolution = input.read_f32::<LittleEndian>()?;
-- 
2.43.0


From 28972e572764c151bde39a8e7f5058cf23548ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 038/124] fix: report a damaged P3D instead of running out of
 memory

---
 libs/p3d/src/lib.rs |  2 +-
 libs/p3d/src/lod.rs | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index b9f2245..3670d9e 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index d45d121..7618302 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -5,6 +5,9 @@ use hemtt_common::io::{ReadExt, WriteExt};
 
 use crate::{Error, Face, Point};
 
+/// Elements that are reserved before they are read
+const MAX_RESERVED: u32 = 1 << 16;
+
 #[derive(Debug)]
 pub struct LOD {
     pub version_major: u32,
@@ -40,9 +43,11 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        // The counts of a damaged file can be far larger than the file
+        let mut points: Vec<Point> = Vec::with_capacity(num_points.min(MAX_RESERVED) as usize);
+        let mut face_normals: Vec<(f32, f32, f32)> =
+            Vec::with_capacity(num_face_normals.min(MAX_RESERVED) as usize);
+        let mut faces: Vec<Face> = Vec::with_capacity(num_faces.min(MAX_RESERVED) as usize);
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
@@ -74,8 +79,12 @@ impl LOD {
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-            let mut buffer = vec![0; size as usize].into_boxed_slice();
-            input.read_exact(&mut buffer)?;
+            let mut buffer = Vec::with_capacity(size.min(MAX_RESERVED) as usize);
+            input.take(u64::from(size)).read_to_end(&mut buffer)?;
+            if buffer.len() != size as usize {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            let buffer = buffer.into_boxed_slice();
 
             if name == "#EndOfFile#" {
                 break;
-- 
2.43.0


From ef5c7a5d2397b669a5a9858fbfae8f1e60d497d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 039/124] fix: change the extension of a texture only at its
 end

---
 libs/p3d/src/functions/missing.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 7a58fd1..249ae26 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -74,14 +74,13 @@ impl P3D {
                     missing_textures.push(texture);
                 }
             } else if workspace.locate(&texture)?.is_none() {
-                #[allow(clippy::case_sensitive_file_extension_comparisons)]
                 // working on lowercase paths
-                let (replaced, ext) = if texture.ends_with(".paa") {
-                    (texture.replace(".paa", ".tga"), "tga")
-                } else if texture.ends_with(".tga") {
-                    (texture.replace(".tga", ".paa"), "paa")
-                } else if texture.ends_with(".png") {
-                    (texture.replace(".png", ".paa"), "paa")
+                let (replaced, ext) = if let Some(base) = texture.strip_suffix(".paa") {
+                    (format!("{base}.tga"), "tga")
+                } else if let Some(base) = texture.strip_suffix(".tga") {
+                    (format!("{base}.paa"), "paa")
+                } else if let Some(base) = texture.strip_suffix(".png") {
+                    (format!("{base}.paa"), "paa")
                 } else {
                     (texture.clone(), "")
                 };
-- 
2.43.0


From b548d6337e824922ed1168f7047c5466382209f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 040/124] fix: do not mix up textures and materials in the
 cache of files that exist

---
 libs/p3d/src/functions/missing.rs | 48 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 249ae26..ee8d1bf 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -38,6 +38,16 @@ impl SearchCache {
         let mut cache = self.cache.write().expect("failed to lock cache");
         cache.insert(file_id, exists);
     }
+
+    /// Check if the file exists in the cache, or else in the workspace
+    fn locate(&self, workspace: &WorkspacePath, path: &String) -> Result<bool, Error> {
+        if let Some(exists) = self.exists(path) {
+            return Ok(exists);
+        }
+        let exists = workspace.locate(path)?.is_some();
+        self.insert(path.clone(), exists);
+        Ok(exists)
+    }
 }
 
 impl P3D {
@@ -69,29 +79,24 @@ impl P3D {
                 format!("\\{texture}")
             };
             // let texture = texture.to_lowercase();
-            if let Some(exists) = cache.exists(&texture) {
-                if !exists {
-                    missing_textures.push(texture);
-                }
-            } else if workspace.locate(&texture)?.is_none() {
+            if !cache.locate(workspace, &texture)? {
                 // working on lowercase paths
-                let (replaced, ext) = if let Some(base) = texture.strip_suffix(".paa") {
-                    (format!("{base}.tga"), "tga")
+                let replaced = if let Some(base) = texture.strip_suffix(".paa") {
+                    Some(format!("{base}.tga"))
                 } else if let Some(base) = texture.strip_suffix(".tga") {
-                    (format!("{base}.paa"), "paa")
-                } else if let Some(base) = texture.strip_suffix(".png") {
-                    (format!("{base}.paa"), "paa")
+                    Some(format!("{base}.paa"))
                 } else {
-                    (texture.clone(), "")
+                    texture
+                        .strip_suffix(".png")
+                        .map(|base| format!("{base}.paa"))
+                };
+                let exists = match replaced {
+                    Some(replaced) => cache.locate(workspace, &replaced)?,
+                    None => false,
                 };
-                if ext.is_empty() || workspace.locate(&replaced)?.is_none() {
-                    cache.insert(texture.clone(), false);
+                if !exists {
                     missing_textures.push(texture);
-                } else {
-                    cache.insert(texture.clone(), true);
                 }
-            } else {
-                cache.insert(texture.clone(), true);
             }
         }
         let mut missing_materials = Vec::new();
@@ -104,15 +109,8 @@ impl P3D {
             } else {
                 format!("\\{material}")
             };
-            if let Some(exists) = cache.exists(&material) {
-                if !exists {
-                    missing_materials.push(material);
-                }
-            } else if workspace.locate(&material)?.is_none() {
-                cache.insert(material.clone(), false);
+            if !cache.locate(workspace, &material)? {
                 missing_materials.push(material);
-            } else {
-                cache.insert(material.clone(), true);
             }
         }
         Ok((missing_textures, missing_materials))
-- 
2.43.0


From fe13b3745f886c95ed837960257adc1b8fa66a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 041/124] fix: report launch configurations that extend each
 other in a circle

---
 libs/common/src/config/project/hemtt/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..aff27e4 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -102,10 +102,12 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut seen = vec![k.clone()];
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
-                                return Err(Error::LaunchConfigExtendsSelf(k));
+                            if seen.contains(extends) {
+                                return Err(Error::LaunchConfigExtendsSelf(extends.to_string()));
                             }
+                            seen.push(extends.to_string());
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
                             } else {
-- 
2.43.0


From d6c12a3d5178195b837e69082a62dbcd018f8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 042/124] fix: prefer the macro with the exact name when
 reading a version from a file

---
 libs/common/src/version.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/version.rs b/libs/common/src/version.rs
index 53932ed..6c2e87b 100644
--- a/libs/common/src/version.rs
+++ b/libs/common/src/version.rs
@@ -96,7 +96,17 @@ impl Version {
         };
         let line = lines
             .iter()
-            .find(|line| line.starts_with(&format!("#define {component}")))
+            .find(|line| {
+                // other macros may have the component as part of their name
+                line.strip_prefix("#define ")
+                    .and_then(|define| define.split_whitespace().next())
+                    .is_some_and(|name| name == component)
+            })
+            .or_else(|| {
+                lines
+                    .iter()
+                    .find(|line| line.starts_with(&format!("#define {component}")))
+            })
             .ok_or_else(|| error.clone())?;
         // remove comment
         let component = line
-- 
2.43.0


From 8b4a4d2fda4e55bfd0d525e8502503dcc1c6be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 043/124] fix: refuse an empty prefix in a prefix file with
 keys

---
 libs/common/src/prefix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/prefix.rs b/libs/common/src/prefix.rs
index bfd9536..9a41f68 100644
--- a/libs/common/src/prefix.rs
+++ b/libs/common/src/prefix.rs
@@ -57,6 +57,9 @@ impl Prefix {
                 let key = split.0.trim().to_lowercase();
                 if key == "prefix" {
                     let content = split.1.trim();
+                    if content.is_empty() {
+                        return Err(Error::Empty);
+                    }
                     if content.starts_with('\\') {
                         return Err(Error::InvalidPrefix(content.to_string()));
                     }
-- 
2.43.0


From 3f49fa0e1e349cbd232385735002b8576505fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 044/124] fix: do not panic when the git hash asked for is
 longer than there is

---
 libs/common/src/config/project/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index ddd6a98..51e7f04 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -43,7 +43,7 @@ impl VersionConfig {
             let repo = Repository::discover(".")?;
             let rev = repo.revparse_single("HEAD")?;
             let id = rev.id().to_string();
-            version.set_build(&id[0..length as usize]);
+            version.set_build(&id[0..id.len().min(length as usize)]);
         };
 
         unsafe {
-- 
2.43.0


From 02c4ccae06584ffed5079c567c91258269e07c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 045/124] fix: report lints.toml conflicting with stringtable
 lints in project.toml

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 3435d8e08e02ec1aa7e2a520086b105bfd0fae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 046/124] fix: store the require setting of the P drive under
 the name it is read by

---
 libs/common/src/config/pdrive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/pdrive.rs b/libs/common/src/config/pdrive.rs
index 5af2154..556df76 100644
--- a/libs/common/src/config/pdrive.rs
+++ b/libs/common/src/config/pdrive.rs
@@ -33,7 +33,7 @@ impl Serialize for PDriveOption {
         match self {
             Self::Disallow => serializer.serialize_str("disallow"),
             Self::Ignore => serializer.serialize_str("ignore"),
-            Self::Require => serializer.serialize_str("required"),
+            Self::Require => serializer.serialize_str("require"),
         }
     }
 }
-- 
2.43.0


From 96d14dec8f758bf9f9ec4c7a164cf5c351dfeafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 047/124] fix: do not panic when a prefix ends inside a
 character

---
 libs/common/src/strip.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..fd81f44 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,10 +5,8 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
+        let start = self.get(..prefix.len())?;
+        if start.eq_ignore_ascii_case(prefix) {
             Some(&self[prefix.len()..])
         } else {
             None
-- 
2.43.0


From 1f9d9102b26547fdddaba013cb6d778b4694d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 048/124] fix: report a compressed integer that is too long

---
 libs/common/src/io.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index b670c90..c9809ae 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -50,6 +50,12 @@ impl<T: Read> ReadExt for T {
         let mut result: u32 = 0;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
+            if i > 4 {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "compressed integer is too long",
+                ));
+            }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
                 break;
-- 
2.43.0


From 3456d44a793fa0b7831533b7c9af32c41a9c579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 049/124] fix: render reports about empty files instead of
 panicking

---
 libs/workspace/src/reporting/files.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/reporting/files.rs b/libs/workspace/src/reporting/files.rs
index 9206d52..53d2975 100644
--- a/libs/workspace/src/reporting/files.rs
+++ b/libs/workspace/src/reporting/files.rs
@@ -55,17 +55,21 @@ impl WorkspaceFiles {
             .entry(file_id.clone())
             .or_insert_with(|| {
                 let source = file_id.read_to_string().unwrap_or_default();
-                let line_starts = source
+                let mut line_starts = source
                     .lines()
                     .scan(0, |pos, line| {
                         let start = *pos;
                         *pos += line.len() + 1;
                         Some(start)
                     })
-                    .collect();
+                    .collect::<Vec<_>>();
+                if line_starts.is_empty() {
+                    // an empty file has a single, empty line
+                    line_starts.push(0);
+                }
                 WorkspaceFile {
                     source: source.into(),
-                    line_starts,
+                    line_starts: line_starts.into(),
                 }
             })
             .clone()
-- 
2.43.0


From 32f3ab15cfea749fe0514f4c879a78d3f61f1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 050/124] fix: use the longest matching prefix, instead of any,
 to translate paths

---
 libs/workspace/src/path.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..0cebcad 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,13 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
-                path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
-            })
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase())))
+            .max_by_key(|(_, vfs)| vfs.as_str().len())
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -250,7 +253,8 @@ impl WorkspacePath {
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .max_by_key(|(p, _)| p.len())
             {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
-- 
2.43.0


From 1ff5f3514e29386efab37da20b9f47511498b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 051/124] fix: find a path in another case also when a prefix
 matches its start

---
 libs/workspace/src/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 0cebcad..63043c7 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -292,7 +292,8 @@ impl WorkspacePath {
                         },
                     }));
                 }
-            } else if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
+            }
+            if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
                 return Ok(Some(LocateResult {
                     case_mismatch: Some(insensitive.to_string_lossy().to_string()),
                     path: Self {
-- 
2.43.0


From 0a23d38b75a230d3291a4687f1b96cf2072ec30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 052/124] fix: accept prefix files in any case when scanning
 addons

---
 libs/workspace/src/addons.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/workspace/src/addons.rs b/libs/workspace/src/addons.rs
index f42f8c5..debca43 100644
--- a/libs/workspace/src/addons.rs
+++ b/libs/workspace/src/addons.rs
@@ -65,6 +65,14 @@ impl Addon {
                         .map(|f| f.to_uppercase())
                         .collect::<Vec<String>>(),
                 );
+                // any other case
+                for entry in std::fs::read_dir(&path)? {
+                    if let Ok(name) = entry?.file_name().into_string() {
+                        if FILES.contains(&name.to_lowercase().as_str()) {
+                            files.push(name);
+                        }
+                    }
+                }
                 'search: for file in &files {
                     let path = path.join(file);
                     if path.exists() {
-- 
2.43.0


From eaa2baa3f9a1f571e645c6b0907e5359eb401106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 053/124] fix: end the label of a report in the file it starts
 in

---
 libs/workspace/src/reporting/diagnostic/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index d93f528..1f2dffd 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -72,12 +72,14 @@ impl Diagnostic {
         let map_start = processed.mapping(span.start)?;
         let map_end = processed.mapping(span.end)?;
         let map_file = processed.source(map_start.source())?;
+        let start = map_start.original_start();
+        let mut end = map_end.original_start();
+        if map_end.source() != map_start.source() || end < start {
+            // the span ends in another file, or before a macro was used
+            end = map_start.original_end().max(start);
+        }
         diag.labels.push(
-            Label::primary(
-                map_file.0.clone(),
-                map_start.original_start()..map_end.original_start(),
-            )
-            .with_message(code.label_message()),
+            Label::primary(map_file.0.clone(), start..end).with_message(code.label_message()),
         );
         diag.link = code.link().map(std::string::ToString::to_string);
         if let Some(note) = code.note() {
-- 
2.43.0


From 7120837aaf4976e81d0bc0e2f934dd22fcafd6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 054/124] fix: sort the containers of a stringtable

---
 libs/stringtable/src/package.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..10944f5 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -32,6 +32,7 @@ impl Package {
 
     pub fn sort(&mut self) {
         self.keys.sort_by(|a, b| a.id().cmp(b.id()));
+        self.containers.sort_by(|a, b| a.name().cmp(b.name()));
         for container in &mut self.containers {
             container.sort();
         }
-- 
2.43.0


From 3d08ed6f466f26543eac4458c892eea8acc7022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 055/124] fix: keep entities in stringtable attributes and
 CDATA

---
 libs/stringtable/src/key.rs     | 14 +++++++++++---
 libs/stringtable/src/lib.rs     |  2 +-
 libs/stringtable/src/package.rs |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..a1d8ecb 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -1,13 +1,21 @@
-use quick_xml::escape::minimal_escape;
 use serde::{Deserialize, Serialize, Serializer};
 
+// `Project::from_reader` reads entities as plain text, only the `&` needs to be escaped a second
+// time for `Project::to_writer` to be able to restore them
+pub fn escape_str<S>(s: &str, ser: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    ser.serialize_str(&s.replace('&', "&amp;"))
+}
+
 #[allow(clippy::ref_option)] // `&Option<String>` is expected by serde
 fn min_escape<S>(s: &Option<String>, ser: S) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
 {
     match s {
-        Some(s) => ser.serialize_str(&minimal_escape(s)),
+        Some(s) => escape_str(s, ser),
         None => ser.serialize_none(),
     }
 }
@@ -15,7 +23,7 @@ where
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "escape_str")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..f064110 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -15,7 +15,7 @@ use tracing::error;
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::escape_str")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 10944f5..6b4126f 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -4,7 +4,7 @@ use crate::{Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::escape_str")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From 9964d8d38da6c5dcace27fb5d2b081df7ed9c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 056/124] fix: keep stringtable comments once and at their
 element

---
 libs/stringtable/src/comments.rs | 182 +++++++++++++++++++++++++++++++
 libs/stringtable/src/lib.rs      |  98 +++--------------
 2 files changed, 196 insertions(+), 84 deletions(-)
 create mode 100644 libs/stringtable/src/comments.rs

diff --git a/libs/stringtable/src/comments.rs b/libs/stringtable/src/comments.rs
new file mode 100644
index 0000000..74c18f5
--- /dev/null
+++ b/libs/stringtable/src/comments.rs
@@ -0,0 +1,182 @@
+use std::collections::HashMap;
+
+use quick_xml::{escape::unescape, events::Event, Reader};
+
+#[derive(Clone)]
+/// Comments of a stringtable, and the tag they are in front of
+pub struct Comments {
+    text: String,
+    /// The line of the tag
+    line: String,
+    /// The line of the key they are in
+    key: Option<String>,
+    place: Place,
+}
+
+impl std::fmt::Debug for Comments {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_tuple("")
+            .field(&self.text)
+            .field(&self.line)
+            .field(&self.key)
+            .finish()
+    }
+}
+
+#[derive(Clone, Default, PartialEq, Eq)]
+/// The elements around a tag, and the one it opens
+struct Place {
+    elements: Vec<String>,
+    closing: bool,
+}
+
+impl Place {
+    /// Is this inside of a string, where a comment can not be kept
+    fn in_string(&self) -> bool {
+        self.elements.last().is_some_and(|element| {
+            !["project ", "package ", "container ", "key "]
+                .iter()
+                .any(|tag| element.starts_with(tag))
+        })
+    }
+}
+
+/// A comment or a tag
+struct Item {
+    start: usize,
+    end: usize,
+    comment: bool,
+    place: Place,
+}
+
+/// Find all comments and tags, as far as the xml is valid
+fn items(xml: &str) -> Vec<Item> {
+    let mut items = Vec::new();
+    let mut place = Place::default();
+    // how often an element appeared at each level
+    let mut counts = vec![HashMap::<String, usize>::new()];
+    let mut reader = Reader::from_str(xml);
+    let mut start = 0;
+    while let Ok(event) = reader.read_event() {
+        let Ok(end) = usize::try_from(reader.buffer_position()) else {
+            break;
+        };
+        place.closing = matches!(event, Event::End(_));
+        if let Event::Start(tag) | Event::Empty(tag) = &event {
+            let name = tag.attributes().flatten().next().map(|attribute| {
+                let value = String::from_utf8_lossy(&attribute.value).to_string();
+                unescape(&value).map_or_else(|_| value.clone(), |value| value.to_string())
+            });
+            let tag = String::from_utf8_lossy(tag.name().as_ref()).to_lowercase();
+            let element = format!("{tag} {}", name.unwrap_or_default());
+            let count = counts.last_mut().map_or(0, |counts| {
+                let count = counts.entry(element.clone()).or_default();
+                *count += 1;
+                *count
+            });
+            place.elements.push(format!("{element} {count}"));
+            counts.push(HashMap::new());
+        }
+        let comment = matches!(event, Event::Comment(_));
+        if comment || matches!(event, Event::Start(_) | Event::Empty(_) | Event::End(_)) {
+            items.push(Item {
+                start,
+                end,
+                comment,
+                place: place.clone(),
+            });
+        }
+        if matches!(event, Event::Empty(_) | Event::End(_)) {
+            place.elements.pop();
+            counts.pop();
+        }
+        if matches!(event, Event::Eof) {
+            break;
+        }
+        start = end;
+    }
+    items.push(Item {
+        start: xml.len(),
+        end: xml.len(),
+        comment: false,
+        place: Place::default(),
+    });
+    items
+}
+
+/// Read the comments of a stringtable
+pub fn read(xml: &str) -> Vec<Comments> {
+    let line = |start: usize| {
+        let line = xml[start..].lines().next().unwrap_or_default();
+        line.trim().to_string()
+    };
+    let mut comments = Vec::new();
+    let mut pending = Vec::<(usize, usize)>::new();
+    let mut tag = 0;
+    let mut key = None;
+    for item in items(xml) {
+        let in_string = item.comment && item.place.in_string();
+        if item.comment && !in_string {
+            match pending.last_mut() {
+                Some((_, end)) if xml[*end..item.start].trim().is_empty() => *end = item.end,
+                _ => pending.push((item.start, item.end)),
+            }
+            continue;
+        }
+        if in_string {
+            // in front of the string
+            pending.push((item.start, item.end));
+        } else {
+            tag = item.start;
+        }
+        for (start, end) in pending.drain(..) {
+            comments.push(Comments {
+                text: xml[start..end].to_string(),
+                line: line(tag),
+                key: key.clone(),
+                place: item.place.clone(),
+            });
+        }
+        if !item.comment && line(tag).starts_with("<Key") {
+            key = Some(line(tag));
+        } else if !item.comment && line(tag).starts_with("</Key") {
+            key = None;
+        }
+    }
+    comments.sort_by(|a, b| (&a.text, &a.line, &a.key).cmp(&(&b.text, &b.line, &b.key)));
+    comments
+}
+
+/// Put the comments back in front of their tags
+pub fn write(xml: &str, comments: &[Comments]) -> String {
+    let mut out = String::new();
+    let mut written = 0;
+    for item in items(xml) {
+        let line = xml[..item.start].rfind('\n').map_or(0, |line| line + 1);
+        let indent = xml[line..]
+            .chars()
+            .take_while(|c| *c == ' ')
+            .collect::<String>();
+        let own_line = xml[line..item.start].trim().is_empty();
+        out.push_str(&xml[written..if own_line { line } else { item.start }]);
+        written = if own_line { line } else { item.start };
+        let mut found = false;
+        for comment in comments.iter().filter(|c| c.place == item.place) {
+            if !own_line && !found {
+                out.push('\n');
+            }
+            found = true;
+            out.push_str(&indent);
+            if item.place.closing {
+                out.push_str("    ");
+            }
+            out.push_str(&comment.text);
+            out.push('\n');
+        }
+        if !own_line && found {
+            out.push_str(&indent);
+        }
+    }
+    out.push_str(&xml[written..]);
+    out
+}
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index f064110..35c9404 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -4,6 +4,7 @@ use quick_xml::se::Serializer;
 use serde::{Deserialize, Serialize};
 
 pub mod analyze;
+mod comments;
 mod key;
 mod package;
 mod totals;
@@ -21,7 +22,7 @@ pub struct Project {
     packages: Vec<Package>,
 
     #[serde(skip)]
-    meta_comments: Vec<(String, String, Option<String>)>,
+    meta_comments: Vec<comments::Comments>,
 }
 
 impl Project {
@@ -47,61 +48,18 @@ impl Project {
     /// # Errors
     /// [`quick_xml::DeError`] if the reader is not a valid stringtable
     pub fn from_reader<R: std::io::BufRead>(reader: R) -> Result<Self, quick_xml::de::DeError> {
-        let mut buffer = String::new();
-        let mut reading_comments = false;
-        let mut comments = Vec::new();
-        let mut in_key = None;
-        let Ok(reader) = reader
-            .lines()
-            .map(|l| {
-                let Ok(l) = l else {
-                    error!("Failed to read line: {:?}", l);
-                    return l;
-                };
-                let l_trim = l.trim();
-                if reading_comments {
-                    buffer.push('\n');
-                }
-                if l_trim.starts_with("<!--") {
-                    reading_comments = true;
-                    if !buffer.is_empty() {
-                        buffer.push('\n');
-                    }
-                }
-                if !reading_comments && !buffer.is_empty() {
-                    comments.push((
-                        buffer.trim().to_string(),
-                        l_trim.to_string(),
-                        in_key.clone(),
-                    ));
-                    buffer.clear();
-                }
-                if reading_comments {
-                    buffer.push_str(&l);
-                    if l_trim.ends_with("-->") {
-                        reading_comments = false;
-                    }
-                }
-                if !reading_comments {
-                    if l_trim.starts_with("<Key") {
-                        in_key = Some(l_trim.to_string());
-                    } else if l_trim.starts_with("</Key>") {
-                        in_key = None;
-                    }
-                }
-                Ok(l.replace('&', "&amp;"))
-            })
-            .collect::<Result<Vec<_>, _>>()
-        else {
-            return Err(quick_xml::de::DeError::Custom(
-                "Failed to read lines".to_string(),
-            ));
+        let lines = match reader.lines().collect::<Result<Vec<_>, _>>() {
+            Ok(lines) => lines.join("\n"),
+            Err(e) => {
+                error!("Failed to read line: {:?}", e);
+                return Err(quick_xml::de::DeError::Custom(
+                    "Failed to read lines".to_string(),
+                ));
+            }
         };
-        comments.sort();
-        comments.dedup();
         let mut this: Self =
-            quick_xml::de::from_reader(BufReader::new(reader.join("\n").as_bytes()))?;
-        this.meta_comments = comments;
+            quick_xml::de::from_reader(BufReader::new(lines.replace('&', "&amp;").as_bytes()))?;
+        this.meta_comments = comments::read(&lines);
         Ok(this)
     }
 
@@ -119,36 +77,8 @@ impl Project {
         self.serialize(ser)?;
         buffer.push('\n');
 
-        let mut clear_next = false;
-        let mut in_key = None;
-        for line in buffer.lines() {
-            let l_trim = line.trim();
-            if clear_next {
-                clear_next = false;
-                in_key = None;
-            }
-            for (before, after, key) in &self.meta_comments {
-                if l_trim.starts_with(after) && &in_key == key {
-                    let mut whitespace = line
-                        .chars()
-                        .take_while(|c| c.is_whitespace())
-                        .collect::<String>();
-                    if l_trim.starts_with("</") {
-                        whitespace += "    ";
-                    }
-                    writer.write_str(&whitespace)?;
-                    writer.write_str(before)?;
-                    writer.write_char('\n')?;
-                }
-            }
-            writer.write_str(line.replace("&amp;amp;", "&").as_str())?;
-            writer.write_char('\n')?;
-            if l_trim.starts_with("<Key") {
-                in_key = Some(l_trim.to_string());
-            } else if l_trim.starts_with("</Key>") {
-                clear_next = true;
-            }
-        }
+        let buffer = buffer.replace("&amp;amp;", "&");
+        writer.write_str(&comments::write(&buffer, &self.meta_comments))?;
 
         Ok(())
     }
-- 
2.43.0


From b633b70c76e54e2c39f9f8b71d74995358489b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 057/124] fix: only share the array of an else that then
 consumes

---
 libs/sqf/src/compiler/optimizer/mod.rs | 29 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/libs/sqf/src/compiler/optimizer/mod.rs b/libs/sqf/src/compiler/optimizer/mod.rs
index 77c4eb1..4ab8b12 100644
--- a/libs/sqf/src/compiler/optimizer/mod.rs
+++ b/libs/sqf/src/compiler/optimizer/mod.rs
@@ -144,6 +144,12 @@ impl Expression {
                                 left_o = consumable;
                             }
                         }
+                        // anything else could keep and modify the array
+                        "then" => {
+                            if let Some(consumable) = right_o.get_consumable_else() {
+                                right_o = consumable;
+                            }
+                        }
                         "call" => {
                             if matches!(&left_o, Self::Variable(name, _) if name == "_this") {
                                 return Self::UnaryCommand(
@@ -197,13 +203,6 @@ impl Expression {
                             return eval;
                         }
                     }
-                    BinaryCommand::Else => {
-                        if let (Self::Code(_), Self::Code(_)) = (&left_o, &right_o) {
-                            #[cfg(debug_assertions)]
-                            trace!("optimizing [B:{}] => ConsumeableArray", op_type.as_str());
-                            return Self::ConsumeableArray(vec![left_o, right_o], range.clone());
-                        }
-                    }
                     _ => {}
                 }
                 Self::BinaryCommand(
@@ -289,6 +288,22 @@ impl Expression {
         }
     }
 
+    /// Trys to get the consumable array of two code blocks created by an `else`
+    #[must_use]
+    fn get_consumable_else(&self) -> Option<Self> {
+        if let Self::BinaryCommand(BinaryCommand::Else, left, right, range) = &self {
+            if let (Self::Code(_), Self::Code(_)) = (&**left, &**right) {
+                #[cfg(debug_assertions)]
+                trace!("optimizing [B:else] => ConsumeableArray");
+                return Some(Self::ConsumeableArray(
+                    vec![(**left).clone(), (**right).clone()],
+                    range.clone(),
+                ));
+            }
+        }
+        None
+    }
+
     /// Boilerplate for unary string operations
     #[must_use]
     fn op_uni_string(
-- 
2.43.0


From c1ab013004c54a5bce37de2b48764c38267bd875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 058/124] fix: accept SQF integers above the range of u32

---
 libs/sqf/src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/sqf/src/parser/lexer.rs b/libs/sqf/src/parser/lexer.rs
index fdf7aa9..dccab92 100644
--- a/libs/sqf/src/parser/lexer.rs
+++ b/libs/sqf/src/parser/lexer.rs
@@ -198,7 +198,7 @@ fn number() -> impl Parser<char, crate::Scalar<f32>, Error = Simple<char>> {
         number_float_exponent(),
         number_float_basic(),
         number_hex().map(|value| value as f32),
-        number_int().map(|value| value as f32),
+        number_int(),
     ))
     .map(crate::Scalar)
 }
@@ -213,11 +213,11 @@ fn number_hex() -> impl Parser<char, u32, Error = Simple<char>> {
         .try_map(error_map)
 }
 
-fn number_int() -> impl Parser<char, u32, Error = Simple<char>> {
+fn number_int() -> impl Parser<char, f32, Error = Simple<char>> {
     number_digits()
         .collect::<String>()
         //.then_ignore(just('.').not().rewind())
-        .from_str::<u32>()
+        .from_str::<f32>()
         .try_map(error_map)
 }
 
-- 
2.43.0


From 29a78c775040a86d731ec217c15c94787ca1d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 059/124] fix: refuse SQF arrays that are too long instead of
 panicking

---
 libs/sqf/src/compiler/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/sqf/src/compiler/mod.rs b/libs/sqf/src/compiler/mod.rs
index eaa0178..e6be798 100644
--- a/libs/sqf/src/compiler/mod.rs
+++ b/libs/sqf/src/compiler/mod.rs
@@ -168,7 +168,7 @@ impl Expression {
                             push_constant(item, instructions, ctx)?;
                         }
                         instructions.push(Instruction::MakeArray(
-                            len.try_into().expect("array too long"),
+                            len.try_into().map_err(|_| CompileError::ListTooLong)?,
                             SourceInfo {
                                 offset: 0,
                                 file_index: 0,
-- 
2.43.0


From 083eacbf01352998cf072487f61b94a5f29ad757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 060/124] fix: keep the dots of addon and mod names in the
 names of the files built

---
 bin/src/modules/archive.rs |  4 +---
 bin/src/modules/pbo.rs     |  8 +++-----
 bin/src/modules/sign.rs    | 25 ++++++++++++-------------
 3 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/bin/src/modules/archive.rs b/bin/src/modules/archive.rs
index 479bc82..f2a1ee2 100644
--- a/bin/src/modules/archive.rs
+++ b/bin/src/modules/archive.rs
@@ -29,9 +29,7 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     if !output.exists() {
         create_dir_all(&output)?;
     }
-    let output = output
-        .join(format!("{}-latest", ctx.config().prefix()))
-        .with_extension("zip");
+    let output = output.join(format!("{}-latest.zip", ctx.config().prefix()));
     let options = SimpleFileOptions::default().compression_level(Some(9));
 
     debug!("creating release at {:?}", output.display());
diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 033e3a7..298ae78 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -68,10 +68,10 @@ fn internal_build(
     let mut pbo = WritablePbo::new();
     let target = ctx.build_folder().expect("build folder exists");
 
-    let pbo_name = addon.pbo_name(ctx.config().prefix());
+    let pbo_name = format!("{}.pbo", addon.pbo_name(ctx.config().prefix()));
 
     let target_pbo = {
-        let mut path = match collapse {
+        match collapse {
             Collapse::No => match addon.location() {
                 Location::Addons => target.join("addons").join(pbo_name),
                 Location::Optionals => {
@@ -90,9 +90,7 @@ fn internal_build(
                 }
             },
             Collapse::Yes => target.join("addons").join(pbo_name),
-        };
-        path.set_extension("pbo");
-        path
+        }
     };
     let Some(parent) = target_pbo.parent() else {
         return Err(Error::Io(std::io::Error::new(
diff --git a/bin/src/modules/sign.rs b/bin/src/modules/sign.rs
index d90a3c2..bfb7072 100644
--- a/bin/src/modules/sign.rs
+++ b/bin/src/modules/sign.rs
@@ -81,15 +81,11 @@ impl Module for Sign {
             let pbo_name = addon.pbo_name(ctx.config().prefix());
             let (mut pbo, sig_location, key) = match addon.location() {
                 Location::Addons => {
-                    let target_pbo = {
-                        let mut path = ctx
-                            .build_folder()
-                            .expect("build folder exists")
-                            .join("addons")
-                            .join(pbo_name);
-                        path.set_extension("pbo");
-                        path
-                    };
+                    let target_pbo = ctx
+                        .build_folder()
+                        .expect("build folder exists")
+                        .join("addons")
+                        .join(format!("{pbo_name}.pbo"));
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
@@ -97,7 +93,7 @@ impl Module for Sign {
                     )
                 }
                 Location::Optionals => {
-                    let (mut target_pbo, key, authority) =
+                    let (target_pbo, key, authority) =
                         if ctx.config().hemtt().build().optional_mod_folders() {
                             let authority = get_authority(ctx, Some(&pbo_name))?;
                             let key = BIPrivateKey::generate(1024, &authority)?;
@@ -113,18 +109,21 @@ impl Module for Sign {
                             key.to_public_key().write(&mut File::create(
                                 mod_root.join("keys").join(format!("{authority}.bikey")),
                             )?)?;
-                            (mod_root.join("addons").join(pbo_name), key, authority)
+                            (
+                                mod_root.join("addons").join(format!("{pbo_name}.pbo")),
+                                key,
+                                authority,
+                            )
                         } else {
                             (
                                 ctx.build_folder()
                                     .expect("build folder exists")
                                     .join(addon.location().to_string())
-                                    .join(pbo_name),
+                                    .join(format!("{pbo_name}.pbo")),
                                 addons_key.clone(),
                                 authority.clone(),
                             )
                         };
-                    target_pbo.set_extension("pbo");
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
-- 
2.43.0


From de410e26577c4aafec14314860a16475e3f03605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 061/124] fix: match the documented form of project
 files.exclude

---
 bin/src/modules/pbo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 298ae78..9622da7 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -124,7 +124,10 @@ fn internal_build(
             }
 
             for exclude in ctx.config().files().exclude() {
-                if glob::Pattern::new(exclude)?.matches(entry.as_str()) {
+                let pattern = glob::Pattern::new(exclude)?;
+                if pattern.matches(entry.as_str())
+                    || pattern.matches(entry.as_str().trim_start_matches('/'))
+                {
                     continue 'entries;
                 }
             }
-- 
2.43.0


From d5248548b19e037549b98c08a5b8706647406ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 062/124] fix: strip the folder of an addon only once from its
 paths

---
 bin/src/modules/binarize/mod.rs | 3 ++-
 bin/src/modules/pbo.rs          | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index f4b2863..8b07343 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -187,7 +187,8 @@ impl Module for Binarize {
                                 pat.matches(
                                     entry
                                         .as_str()
-                                        .trim_start_matches(&format!("/{}/", addon.folder())),
+                                        .strip_prefix(&format!("/{}/", addon.folder()))
+                                        .unwrap_or_else(|| entry.as_str()),
                                 )
                             })
                         {
diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 9622da7..f162ec6 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -113,6 +113,7 @@ fn internal_build(
     pbo.add_property("hemtt", env!("HEMTT_VERSION"));
     pbo.add_property("version", version.to_string());
 
+    let root = format!("/{}/", addon.folder());
     'entries: for entry in ctx.workspace_path().join(addon.folder())?.walk_dir()? {
         if entry.metadata()?.file_type == VfsFileType::File {
             if entry.filename() == "config.cpp" && entry.parent().join("config.bin")?.exists()? {
@@ -136,7 +137,8 @@ fn internal_build(
                     if glob::Pattern::new(exclude)?.matches(
                         entry
                             .as_str()
-                            .trim_start_matches(&format!("/{}/", addon.folder())),
+                            .strip_prefix(&root)
+                            .unwrap_or_else(|| entry.as_str()),
                     ) {
                         continue 'entries;
                     }
@@ -155,7 +157,8 @@ fn internal_build(
 
             let file = entry
                 .as_str()
-                .trim_start_matches(&format!("/{}/", addon.folder()))
+                .strip_prefix(&root)
+                .unwrap_or_else(|| entry.as_str())
                 .replace('/', "\\");
             trace!("adding file {:?}", file);
 
-- 
2.43.0


From 9f37272373e92d284877e6c936b1b5f504fb1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 063/124] fix: match rapify.exclude against the path in the
 addon

---
 bin/src/modules/rapifier.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/rapifier.rs b/bin/src/modules/rapifier.rs
index a903bb4..49134b2 100644
--- a/bin/src/modules/rapifier.rs
+++ b/bin/src/modules/rapifier.rs
@@ -71,10 +71,14 @@ impl Module for Rapifier {
                     if entry.metadata()?.file_type == VfsFileType::File
                         && can_rapify(entry.as_str())
                     {
-                        if globs
-                            .iter()
-                            .any(|pat| pat.matches_with(entry.as_str(), glob_options))
-                        {
+                        let relative = entry
+                            .as_str()
+                            .strip_prefix(&format!("/{}/", addon.folder()))
+                            .unwrap_or_else(|| entry.as_str());
+                        if globs.iter().any(|pat| {
+                            pat.matches_with(relative, glob_options)
+                                || pat.matches_with(entry.as_str(), glob_options)
+                        }) {
                             debug!("skipping {}", entry.as_str());
                             continue;
                         }
-- 
2.43.0


From 37240724792d38d181746ebafc6381b614419e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 064/124] fix: take the prefix of an addon even if its file
 matches files.exclude

---
 bin/src/modules/pbo.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index f162ec6..f897988 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -124,6 +124,16 @@ fn internal_build(
                 continue;
             }
 
+            if FILES.contains(&entry.filename().to_lowercase().as_str()) {
+                let prefix = Prefix::new(&entry.read_to_string()?)?;
+                pbo.add_property("prefix", prefix.to_string());
+                pbo.add_property("version", version.to_string());
+                if let Some(hash) = git_hash {
+                    pbo.add_property("git", hash);
+                }
+                continue;
+            }
+
             for exclude in ctx.config().files().exclude() {
                 let pattern = glob::Pattern::new(exclude)?;
                 if pattern.matches(entry.as_str())
@@ -145,16 +155,6 @@ fn internal_build(
                 }
             }
 
-            if FILES.contains(&entry.filename().to_lowercase().as_str()) {
-                let prefix = Prefix::new(&entry.read_to_string()?)?;
-                pbo.add_property("prefix", prefix.to_string());
-                pbo.add_property("version", version.to_string());
-                if let Some(hash) = git_hash {
-                    pbo.add_property("git", hash);
-                }
-                continue;
-            }
-
             let file = entry
                 .as_str()
                 .strip_prefix(&root)
-- 
2.43.0


From 8141a9b1731cc4eae004dfb9b537648210728808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 065/124] fix: locate and word the errors of hook scripts
 without panicking

---
 .../modules/hook/error/bhe3_parse_error.rs    |  4 +--
 .../modules/hook/error/bhe4_runtime_error.rs  |  4 +--
 bin/src/modules/hook/error/mod.rs             | 26 +++++++++++++------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/bin/src/modules/hook/error/bhe3_parse_error.rs b/bin/src/modules/hook/error/bhe3_parse_error.rs
index 2678095..f5bcedf 100644
--- a/bin/src/modules/hook/error/bhe3_parse_error.rs
+++ b/bin/src/modules/hook/error/bhe3_parse_error.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
 };
 use rhai::{ParseErrorType, Position};
 
-use super::get_offset;
+use super::{get_offset, label_message};
 
 pub struct RhaiParseError {
     script: WorkspacePath,
@@ -31,7 +31,7 @@ impl Code for RhaiParseError {
                     self.script.clone(),
                     get_offset(&content, self.location)..get_offset(&content, self.location),
                 )
-                .with_message(format!("{}", self.error)),
+                .with_message(label_message(&self.error)),
             ),
         )
     }
diff --git a/bin/src/modules/hook/error/bhe4_runtime_error.rs b/bin/src/modules/hook/error/bhe4_runtime_error.rs
index 7e0d52e..0407e34 100644
--- a/bin/src/modules/hook/error/bhe4_runtime_error.rs
+++ b/bin/src/modules/hook/error/bhe4_runtime_error.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
 };
 use rhai::{EvalAltResult, Position};
 
-use super::get_offset;
+use super::{get_offset, label_message};
 
 pub struct RuntimeError {
     script: WorkspacePath,
@@ -31,7 +31,7 @@ impl Code for RuntimeError {
                     self.script.clone(),
                     get_offset(&content, self.location)..get_offset(&content, self.location),
                 )
-                .with_message(self.error.to_string()),
+                .with_message(label_message(&self.error)),
             ),
         )
     }
diff --git a/bin/src/modules/hook/error/mod.rs b/bin/src/modules/hook/error/mod.rs
index bcccbb4..09c4dfb 100644
--- a/bin/src/modules/hook/error/mod.rs
+++ b/bin/src/modules/hook/error/mod.rs
@@ -7,17 +7,27 @@ pub mod bhe2_script_fatal;
 pub mod bhe3_parse_error;
 pub mod bhe4_runtime_error;
 
+/// The byte offset of a location, which counts lines and characters from 1
 fn get_offset(content: &str, location: Position) -> usize {
+    let Some(line) = location.line() else {
+        return 0;
+    };
     let mut offset = 0;
-    for (i, line) in content.lines().enumerate() {
-        if i + 1 == location.line().expect("location should have a line number") {
-            offset += location
-                .position()
-                .expect("location should have a column number")
-                - 1;
-            break;
+    for (i, text) in content.split_inclusive('\n').enumerate() {
+        if i + 1 == line {
+            let before = location.position().unwrap_or(1) - 1;
+            return offset + text.chars().take(before).map(char::len_utf8).sum::<usize>();
         }
-        offset += line.len() + 1;
+        offset += text.len();
     }
     offset
 }
+
+/// The message of an error, worded as a label
+fn label_message(error: &impl ToString) -> String {
+    let error = error.to_string();
+    let mut chars = error.chars();
+    chars.next().map_or_else(String::new, |first| {
+        first.to_lowercase().chain(chars).collect()
+    })
+}
-- 
2.43.0


From 67a6bd0038956805fec2414f2c7e81c01fc26478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:14 +0000
Subject: [PATCH 066/124] fix: quote the line of a config syntax error also
 behind non-ASCII text

---
 libs/config/src/analyze/chumsky.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libs/config/src/analyze/chumsky.rs b/libs/config/src/analyze/chumsky.rs
index 2dfca84..949ba0c 100644
--- a/libs/config/src/analyze/chumsky.rs
+++ b/libs/config/src/analyze/chumsky.rs
@@ -39,23 +39,25 @@ impl ChumskyCode {
             diag.notes.push(format!(
                 "The processed output of the line with the error was:\n{} ",
                 {
-                    let mut start =
-                        std::cmp::min(self.err.span().start, processed.as_str().len() - 1);
-                    while start > 0 && processed.as_str().as_bytes()[start] != b'\n' {
+                    // the span counts characters
+                    let chars: Vec<char> = processed.as_str().chars().collect();
+                    let span = self.err.span();
+                    let mut start = span.start.min(chars.len());
+                    while start > 0 && chars[start - 1] != '\n' {
                         start -= 1;
                     }
-                    while start < self.err.span().start
-                        && processed.as_str().as_bytes()[start].is_ascii_whitespace()
+                    while start < span.start.min(chars.len()) && chars[start].is_ascii_whitespace()
                     {
                         start += 1;
                     }
-                    let mut end = self.err.span().end;
-                    while end < processed.as_str().len()
-                        && processed.as_str().as_bytes()[end] != b'\n'
-                    {
+                    let mut end = span.end.clamp(start, chars.len());
+                    if end > start && chars[end - 1] == '\n' {
+                        end -= 1;
+                    }
+                    while end < chars.len() && chars[end] != '\n' {
                         end += 1;
                     }
-                    processed.extract(start..end).to_string()
+                    chars[start..end].iter().collect::<String>()
                 }
             ));
         }
-- 
2.43.0


From 7bfaaab5262093ba16e0a9936587c6c4b052a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 067/124] fix: find commands that are too new whatever their
 operands are, and once

---
 libs/sqf/src/lib.rs | 69 +++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index fb24060..61ae29e 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -43,66 +43,49 @@ impl Statements {
 
     #[must_use]
     /// Gets the highest version required by any command in this code chunk.
+    ///
+    /// Nested code blocks are chunks of their own.
     pub fn required_version(&self, database: &Database) -> (String, Version, Range<usize>) {
         // TODO can probably replace String with Rc<str>
         fn extract_expression(
             expression: &Expression,
             database: &Database,
-        ) -> Option<(String, Version, Range<usize>)> {
-            match expression {
-                Expression::NularCommand(command, span) => Some((
-                    command.as_str().to_string(),
-                    *database.command_version(command.as_str())?,
-                    span.clone(),
-                )),
-                Expression::UnaryCommand(command, children, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(children, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    if command_version > left_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else {
-                        Some((left.0, left.1, left.2))
+            newest: &mut (String, Version, Range<usize>),
+        ) {
+            if let Some(command) = expression.command_name() {
+                if let Some(version) = database.command_version(command) {
+                    if *version > newest.1 {
+                        *newest = (command.to_string(), *version, expression.span());
                     }
                 }
-                Expression::BinaryCommand(command, left, right, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(left, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    let right = extract_expression(right, database)?;
-                    let right_version = database.command_version(&right.0)?;
-                    if command_version > left_version && command_version > right_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else if left_version > right_version {
-                        Some((left.0, left.1, left.2))
-                    } else {
-                        Some((right.0, right.1, right.2))
-                    }
+            }
+            match expression {
+                Expression::UnaryCommand(_, child, _) => {
+                    extract_expression(child, database, newest);
+                }
+                Expression::BinaryCommand(_, left, right, _) => {
+                    extract_expression(left, database, newest);
+                    extract_expression(right, database, newest);
                 }
-                Expression::Code(statements) => {
-                    let (command, version, span) = statements.required_version(database);
-                    Some((command.as_str().to_string(), version, span))
+                Expression::Array(elements, _) | Expression::ConsumeableArray(elements, _) => {
+                    for element in elements {
+                        extract_expression(element, database, newest);
+                    }
                 }
-                _ => None,
+                _ => {}
             }
         }
-        let mut version = Version::new(0, 0);
-        let mut span = 0..0;
-        let mut command = String::new();
+        let mut newest = (String::new(), Version::new(0, 0), 0..0);
         for statement in &self.content {
-            if let Some((used_command, command_version, command_span)) = match statement {
+            match statement {
                 Statement::AssignGlobal(_, expression, _)
                 | Statement::AssignLocal(_, expression, _)
-                | Statement::Expression(expression, _) => extract_expression(expression, database),
-            } {
-                if command_version > version {
-                    command = used_command.to_string();
-                    version = command_version;
-                    span = command_span.clone();
+                | Statement::Expression(expression, _) => {
+                    extract_expression(expression, database, &mut newest);
                 }
             }
         }
-        (command, version, span)
+        newest
     }
 }
 
-- 
2.43.0


From b4747451040f10e3c7fa98e85f857eeeade387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 068/124] fix: report an event handler in nested code once

---
 .../src/analyze/lints/s02_event_handlers.rs   |  3 +-
 libs/sqf/src/lib.rs                           | 32 +++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 572b41e..0373128 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -175,7 +175,8 @@ impl LintGroupRunner<SqfLintData> for EventHandlerRunner {
         let mut codes: Codes = Vec::new();
         let (addon, database) = data;
         for statement in target.content() {
-            for expression in statement.walk_expressions() {
+            // nested code is a target of its own
+            for expression in statement.walk_expressions_shallow() {
                 let Some((ns, name, id, target)) = get_namespaces(expression) else {
                     continue;
                 };
diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index 61ae29e..916deca 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -118,6 +118,16 @@ impl Statement {
         }
     }
 
+    #[must_use]
+    /// Like [`walk_expressions`](Self::walk_expressions), but does not enter nested code
+    pub fn walk_expressions_shallow(&self) -> Vec<&Expression> {
+        match self {
+            Self::AssignGlobal(_, expression, _)
+            | Self::AssignLocal(_, expression, _)
+            | Self::Expression(expression, _) => expression.walk_expressions_shallow(),
+        }
+    }
+
     #[must_use]
     pub fn span(&self) -> Range<usize> {
         match self {
@@ -262,6 +272,28 @@ impl Expression {
         root
     }
 
+    #[must_use]
+    /// Like [`walk_expressions`](Self::walk_expressions), but does not enter nested code
+    pub fn walk_expressions_shallow(&self) -> Vec<&Self> {
+        let mut root = vec![self];
+        match self {
+            Self::UnaryCommand(_, child, _) => {
+                root.extend(child.walk_expressions_shallow());
+            }
+            Self::BinaryCommand(_, left, right, _) => {
+                root.extend(left.walk_expressions_shallow());
+                root.extend(right.walk_expressions_shallow());
+            }
+            Self::Array(array, _) => {
+                for element in array {
+                    root.extend(element.walk_expressions_shallow());
+                }
+            }
+            _ => {}
+        }
+        root
+    }
+
     #[must_use]
     pub fn span(&self) -> Range<usize> {
         match self {
-- 
2.43.0


From 65cbe57cd992ccc8a3eab40debc4cbdb5c07f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 069/124] fix: honour the settings of the event_unknown lint

---
 .../src/analyze/lints/s02_event_handlers.rs   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 0373128..6d74f92 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -218,21 +218,19 @@ fn check_unknown(
     database: &Database,
     config: Option<&LintConfig>,
 ) -> Codes {
-    if let Some(config) = config {
-        if !config.enabled() {
+    if eh.is_empty() {
+        // only the settings of enabled lints are passed on
+        let Some(config) = config else {
             return Vec::new();
-        }
-    }
-
-    if let Some(config) = config {
+        };
         if let Some(toml::Value::Array(ignore)) = config.option("ignore") {
-            if ignore.iter().any(|i| i.as_str() == Some(name)) {
+            if ignore
+                .iter()
+                .any(|i| i.as_str().is_some_and(|i| i.eq_ignore_ascii_case(&id.0)))
+            {
                 return Vec::new();
             }
         }
-    }
-
-    if eh.is_empty() {
         return vec![Arc::new(CodeS02UnknownEvent::new(
             ns,
             id.1.clone(),
@@ -240,10 +238,9 @@ fn check_unknown(
             id.0.clone(),
             processed,
             database,
-            config.map_or(Severity::Warning, LintConfig::severity),
+            config.severity(),
         ))];
     }
-
     if ns.iter().any(|n| eh.iter().any(|(ns, _)| ns == n)) {
         return Vec::new();
     }
-- 
2.43.0


From 712a2a50fce10d28e9784509c24550a28c983bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 070/124] fix: recognise static values of typeName whatever
 their case

---
 libs/sqf/src/analyze/lints/s03_static_typename.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s03_static_typename.rs b/libs/sqf/src/analyze/lints/s03_static_typename.rs
index 79c0c27..0500d39 100644
--- a/libs/sqf/src/analyze/lints/s03_static_typename.rs
+++ b/libs/sqf/src/analyze/lints/s03_static_typename.rs
@@ -84,7 +84,7 @@ impl LintRunner<SqfLintData> for Runner {
                 ("ARRAY", &target_span, span.len().max(2))
             }
             Expression::NularCommand(NularCommand { name }, span) => {
-                let (a, b) = match name.as_str() {
+                let (a, b) = match name.to_lowercase().as_str() {
                     "scriptnull" => ("SCRIPT", span),
                     "objnull" => ("OBJECT", span),
                     "grpnull" => ("GROUP", span),
@@ -105,7 +105,7 @@ impl LintRunner<SqfLintData> for Runner {
                 (a, b, name.len())
             }
             Expression::UnaryCommand(UnaryCommand::Named(name), _, span) => {
-                if name == "text" {
+                if name.eq_ignore_ascii_case("text") {
                     ("TEXT", span, name.len())
                 } else {
                     return Vec::new();
-- 
2.43.0


From 3aff77c223344844f982859eaa1f512729241cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 071/124] fix: suggest replacements that mean the same for
 strings and for operators

---
 libs/sqf/src/analyze/lints/s05_if_assign.rs   | 26 +++++++++++++------
 libs/sqf/src/analyze/lints/s06_find_in_str.rs |  9 +++----
 libs/sqf/src/analyze/mod.rs                   |  2 +-
 libs/sqf/src/lib.rs                           |  3 ++-
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s05_if_assign.rs b/libs/sqf/src/analyze/lints/s05_if_assign.rs
index 3ce051b..7b41719 100644
--- a/libs/sqf/src/analyze/lints/s05_if_assign.rs
+++ b/libs/sqf/src/analyze/lints/s05_if_assign.rs
@@ -88,7 +88,7 @@ impl LintRunner<SqfLintData> for Runner {
                         }
                         return vec![Arc::new(CodeS05IfAssign::new(
                             if_cmd.span(),
-                            (condition.source(), condition.full_span()),
+                            (condition.source(), condition.full_span(), condition.is_binary()),
                             (lhs, lhs_expr.span()),
                             (rhs, rhs_expr.span()),
                             processed,
@@ -105,7 +105,7 @@ impl LintRunner<SqfLintData> for Runner {
 #[allow(clippy::module_name_repetitions)]
 pub struct CodeS05IfAssign {
     if_cmd: Range<usize>,
-    condition: (String, Range<usize>),
+    condition: (String, Range<usize>, bool),
     lhs: ((String, bool), Range<usize>),
     rhs: ((String, bool), Range<usize>),
 
@@ -127,7 +127,7 @@ impl Code for CodeS05IfAssign {
     }
 
     fn message(&self) -> String {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+        if self.is_parse_number() {
             String::from("assignment to if can be replaced with parseNumber")
         } else {
             String::from("assignment to if can be replaced with select")
@@ -135,7 +135,7 @@ impl Code for CodeS05IfAssign {
     }
 
     fn label_message(&self) -> String {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+        if self.is_parse_number() {
             String::from("use parseNumber")
         } else {
             String::from("use select")
@@ -143,8 +143,12 @@ impl Code for CodeS05IfAssign {
     }
 
     fn suggestion(&self) -> Option<String> {
-        if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
-            Some(format!("parseNumber {}", self.condition.0.as_str(),))
+        if self.is_parse_number() {
+            Some(if self.condition.2 {
+                format!("parseNumber ({})", self.condition.0)
+            } else {
+                format!("parseNumber {}", self.condition.0)
+            })
         } else {
             Some(format!(
                 "[{}, {}] select ({})",
@@ -165,7 +169,7 @@ impl Code for CodeS05IfAssign {
 
     fn note(&self) -> Option<String> {
         Some(
-            if self.lhs.0 .0 == "1" && self.rhs.0 .0 == "0" {
+            if self.is_parse_number() {
                 "parseNumber returns 1 for true and 0 for false"
             } else {
                 "the if and else blocks only return constant values\nselect is faster in this case"
@@ -180,10 +184,16 @@ impl Code for CodeS05IfAssign {
 }
 
 impl CodeS05IfAssign {
+    /// `parseNumber` returns numbers, strings are left to `select`
+    fn is_parse_number(&self) -> bool {
+        let (lhs, rhs) = (&self.lhs.0, &self.rhs.0);
+        lhs.0 == "1" && !lhs.1 && rhs.0 == "0" && !rhs.1
+    }
+
     #[must_use]
     pub fn new(
         if_cmd: Range<usize>,
-        condition: (String, Range<usize>),
+        condition: (String, Range<usize>, bool),
         lhs: ((String, bool), Range<usize>),
         rhs: ((String, bool), Range<usize>),
         processed: &Processed,
diff --git a/libs/sqf/src/analyze/lints/s06_find_in_str.rs b/libs/sqf/src/analyze/lints/s06_find_in_str.rs
index e126bff..2ccd137 100644
--- a/libs/sqf/src/analyze/lints/s06_find_in_str.rs
+++ b/libs/sqf/src/analyze/lints/s06_find_in_str.rs
@@ -82,18 +82,15 @@ impl LintRunner<SqfLintData> for Runner {
             return Vec::new();
         }
     
-        if let Expression::String(needle_str, _, _) = &**needle {
+        if needle.is_string() {
             let haystack_str = match &**haystack {
-                Expression::String(s, _, wrapper) => {
-                    format!("{}{s}{}", wrapper.as_str(), wrapper.as_str())
-                }
-                Expression::Variable(name, _) => name.to_string(),
+                Expression::String(_, _, _) | Expression::Variable(_, _) => haystack.source(),
                 _ => return Vec::new(),
             };
             return vec![Arc::new(CodeS06FindInStr::new(
                 haystack.span().start..target.full_span().end,
                 (haystack_str, haystack.span()),
-                (format!("\"{needle_str}\""), needle.span()),
+                (needle.source(), needle.span()),
                 processed,
                 config.severity(),
             ))];
diff --git a/libs/sqf/src/analyze/mod.rs b/libs/sqf/src/analyze/mod.rs
index 81e0c62..d2a1e05 100644
--- a/libs/sqf/src/analyze/mod.rs
+++ b/libs/sqf/src/analyze/mod.rs
@@ -165,7 +165,7 @@ fn extract_constant(expression: &Expression) -> Option<(String, bool)> {
                 return match expr {
                     Expression::Boolean(bool, _) => Some((bool.to_string(), false)),
                     Expression::Number(num, _) => Some((num.0.to_string(), false)),
-                    Expression::String(string, _, _) => Some((string.to_string(), true)),
+                    Expression::String(string, _, _) => Some((string.replace('"', "\"\""), true)),
                     Expression::Variable(var, _) => Some((var.to_string(), false)),
                     _ => None,
                 };
diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index 916deca..d32161d 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -188,7 +188,8 @@ impl Expression {
                 out
             }
             Self::String(string, _, wrapper) => {
-                format!("{}{}{}", wrapper.as_str(), string, wrapper.as_str())
+                let quote = wrapper.as_str();
+                format!("{quote}{}{quote}", string.replace(quote, &quote.repeat(2)))
             }
             Self::Number(number, _) => number.0.to_string(),
             Self::Boolean(boolean, _) => boolean.to_string(),
-- 
2.43.0


From 1e2455511d909bf0a5d140000c3fd933e583257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 072/124] fix: mind the side of the number in the
 invalid_comparisons lint

---
 .../analyze/lints/s21_invalid_comparisons.rs  | 87 +++++++------------
 1 file changed, 33 insertions(+), 54 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
index e636049..7dc5feb 100644
--- a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
+++ b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
@@ -69,7 +69,7 @@ impl LintRunner<SqfLintData> for Runner {
             return Vec::new();
         };
 
-        if name != "if" {
+        if !name.eq_ignore_ascii_case("if") {
             return Vec::new();
         }
 
@@ -157,41 +157,33 @@ fn extract_comparisons(expr: &Expression) -> Comparison {
                     let rhs = extract_comparisons(rhs);
                     Comparison::CompareGroup(vec![lhs, rhs])
                 }
-                BinaryCommand::Less => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
+                BinaryCommand::Less
+                | BinaryCommand::LessEq
+                | BinaryCommand::Eq
+                | BinaryCommand::NotEq
+                | BinaryCommand::GreaterEq
+                | BinaryCommand::Greater => {
+                    let Some((variable, number, flipped)) = extract_ident_number(lhs, rhs) else {
                         return Comparison::Ignored;
                     };
-                    Comparison::LessThan(variable.clone(), *number, span)
-                }
-                BinaryCommand::LessEq => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
-                        return Comparison::Ignored;
-                    };
-                    Comparison::LessThanOrEqual(variable.clone(), *number, span)
-                }
-                BinaryCommand::Eq => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
-                        return Comparison::Ignored;
-                    };
-                    Comparison::Equal(variable.clone(), *number, span)
-                }
-                BinaryCommand::NotEq => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
-                        return Comparison::Ignored;
-                    };
-                    Comparison::NotEqual(variable.clone(), *number, span)
-                }
-                BinaryCommand::GreaterEq => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
-                        return Comparison::Ignored;
-                    };
-                    Comparison::GreaterThanOrEqual(variable.clone(), *number, span)
-                }
-                BinaryCommand::Greater => {
-                    let Some((variable, number)) = extract_ident_number(lhs, rhs) else {
-                        return Comparison::Ignored;
-                    };
-                    Comparison::GreaterThan(variable.clone(), *number, span)
+                    // variables are not case sensitive
+                    let variable = variable.to_lowercase();
+                    match (cmd, flipped) {
+                        (BinaryCommand::Less, false) | (BinaryCommand::Greater, true) => {
+                            Comparison::LessThan(variable, *number, span)
+                        }
+                        (BinaryCommand::LessEq, false) | (BinaryCommand::GreaterEq, true) => {
+                            Comparison::LessThanOrEqual(variable, *number, span)
+                        }
+                        (BinaryCommand::GreaterEq, false) | (BinaryCommand::LessEq, true) => {
+                            Comparison::GreaterThanOrEqual(variable, *number, span)
+                        }
+                        (BinaryCommand::Greater, false) | (BinaryCommand::Less, true) => {
+                            Comparison::GreaterThan(variable, *number, span)
+                        }
+                        (BinaryCommand::Eq, _) => Comparison::Equal(variable, *number, span),
+                        _ => Comparison::NotEqual(variable, *number, span),
+                    }
                 }
                 _ => Comparison::Ignored,
             }
@@ -214,29 +206,16 @@ fn extract_comparisons(expr: &Expression) -> Comparison {
     }
 }
 
+/// The variable and the number that are compared, and whether the number comes first
 const fn extract_ident_number<'a>(
     lhs: &'a Expression,
     rhs: &'a Expression,
-) -> Option<(&'a String, &'a FloatOrd<f32>)> {
-    let variable = {
-        if let Expression::Variable(name, _) = lhs {
-            name
-        } else if let Expression::Variable(name, _) = rhs {
-            name
-        } else {
-            return None;
-        }
-    };
-    let number = {
-        if let Expression::Number(num, _) = lhs {
-            num
-        } else if let Expression::Number(num, _) = rhs {
-            num
-        } else {
-            return None;
-        }
-    };
-    Some((variable, number))
+) -> Option<(&'a String, &'a FloatOrd<f32>, bool)> {
+    match (lhs, rhs) {
+        (Expression::Variable(name, _), Expression::Number(num, _)) => Some((name, num, false)),
+        (Expression::Number(num, _), Expression::Variable(name, _)) => Some((name, num, true)),
+        _ => None,
+    }
 }
 
 /// Flatten comparisons that are grouped with && for easier comparison
-- 
2.43.0


From 451e3c3043a0cc9b63a7bd3a92f1b751fdfd5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 073/124] fix: treat variables and commands in lints as not
 case sensitive

---
 .../src/analyze/lints/s18_in_vehicle_check.rs |  2 +-
 libs/sqf/src/analyze/lints/s22_this_call.rs   |  2 +-
 .../lints/s23_reassign_reserved_variable.rs   | 23 +++++++++++--------
 libs/sqf/src/analyze/lints/s24_marker_spam.rs | 23 +++++++++++++------
 4 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s18_in_vehicle_check.rs b/libs/sqf/src/analyze/lints/s18_in_vehicle_check.rs
index c47bc5b..90cbe42 100644
--- a/libs/sqf/src/analyze/lints/s18_in_vehicle_check.rs
+++ b/libs/sqf/src/analyze/lints/s18_in_vehicle_check.rs
@@ -97,7 +97,7 @@ fn is_in_vehicle_check(lhs: &Expression, rhs: &Expression) -> Option<String> {
     let (Expression::Variable(var2, _) | Expression::NularCommand(NularCommand { name: var2}, _)) = rhs else {
         return None;
     };
-    if var == var2 {
+    if var.eq_ignore_ascii_case(var2) {
         return Some(var.clone());
     }
     None
diff --git a/libs/sqf/src/analyze/lints/s22_this_call.rs b/libs/sqf/src/analyze/lints/s22_this_call.rs
index 1e9cc50..bf671f4 100644
--- a/libs/sqf/src/analyze/lints/s22_this_call.rs
+++ b/libs/sqf/src/analyze/lints/s22_this_call.rs
@@ -73,7 +73,7 @@ impl LintRunner<SqfLintData> for Runner {
             return Vec::new();
         }
 
-        if matches!(&**lhs, Expression::Variable(name, _) if name == "_this") {
+        if matches!(&**lhs, Expression::Variable(name, _) if name.eq_ignore_ascii_case("_this")) {
             return vec![Arc::new(CodeS22ThisCall::new(
                 lhs.span(),
                 processed,
diff --git a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
index 3d54bc4..b97587b 100644
--- a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
+++ b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
@@ -58,6 +58,11 @@ static RESERVED: [&str; 8] = [
     "this","_this","_forEachIndex","_exception","_thisScript","_thisFSM","thisList","thisTrigger",
 ];
 
+/// Variables are not case sensitive
+fn is_reserved(var: &str) -> bool {
+    RESERVED.iter().any(|reserved| reserved.eq_ignore_ascii_case(var))
+}
+
 struct StatementsRunner {}
 impl LintRunner<SqfLintData> for StatementsRunner {
     type Target = crate::Statements;
@@ -77,7 +82,7 @@ impl LintRunner<SqfLintData> for StatementsRunner {
         
         let mut just_saved: Option<(String, String, Range<usize>)> = None;
         let mut codes: Codes = Vec::new();
-        let mut need_to_restore: HashMap<String, (String, Range<usize>, Range<usize>)> = HashMap::new();
+        let mut need_to_restore: HashMap<String, (String, String, Range<usize>, Range<usize>)> = HashMap::new();
 
         for statement in target.content() {
             let (Statement::AssignGlobal(var, exp, span) | Statement::AssignLocal(var, exp, span)) = statement else {
@@ -86,34 +91,34 @@ impl LintRunner<SqfLintData> for StatementsRunner {
             };
     
             if let Some((saved, original, saved_span)) = just_saved.as_ref() {
-                if saved == var {
-                    need_to_restore.insert(original.to_string(), (saved.to_string(), span.clone(), saved_span.clone()));
+                if saved.eq_ignore_ascii_case(var) {
+                    need_to_restore.insert(original.to_lowercase(), (original.to_string(), saved.to_string(), span.clone(), saved_span.clone()));
                     just_saved.take();
                     continue
                 }
             }
 
-            if let Some((saved, original_save, saved_span)) = need_to_restore.get(var) {
+            if let Some((_, saved, original_save, saved_span)) = need_to_restore.get(&var.to_lowercase()) {
                 codes.push(Arc::new(CodeS23ReassignReservedVariable::new(Variant::SavedWhileSaved(var.to_string(), span.clone(), original_save.clone(), saved.clone(), saved_span.clone()), processed, config.severity())));
             }
 
             if let Expression::Variable(restoring, _) = exp {
-                if need_to_restore.remove(restoring).is_some() {
+                if need_to_restore.remove(&restoring.to_lowercase()).is_some() {
                     continue
                 }
             }
     
-            if RESERVED.contains(&var.as_str()) {
+            if is_reserved(var) {
                 codes.push(Arc::new(CodeS23ReassignReservedVariable::new(Variant::Overwrite(var.to_string(), span.clone()), processed, config.severity())));
             } else if let Expression::Variable(saved, new_saved_span) = exp {
-                if RESERVED.contains(&saved.as_str()) {
+                if is_reserved(saved) {
                     just_saved.replace((saved.to_string(), var.to_string(), new_saved_span.clone()));
                     continue
                 }
             }
         }
 
-        for (saved, (original, span, saved_span)) in need_to_restore {
+        for (_, (saved, original, span, saved_span)) in need_to_restore {
             codes.push(Arc::new(CodeS23ReassignReservedVariable::new(Variant::NeverRestored((saved, span.clone()), (original, saved_span.clone())), processed, config.severity())));
         }
 
@@ -157,7 +162,7 @@ impl LintRunner<SqfLintData> for ExpressionRunner {
                     }
                     _ => continue,
                 };
-                if RESERVED.contains(&&**name) {
+                if is_reserved(name) {
                     return vec![Arc::new(CodeS23ReassignReservedVariable::new(Variant::Overwrite(name.to_string(), span.clone()), processed, config.severity()))];
                 }
             }
diff --git a/libs/sqf/src/analyze/lints/s24_marker_spam.rs b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
index eb47d2b..417220a 100644
--- a/libs/sqf/src/analyze/lints/s24_marker_spam.rs
+++ b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
@@ -75,7 +75,7 @@ impl LintRunner<SqfLintData> for Runner {
         
         let mut codes: Codes = Vec::new();
 
-        let mut pending: HashMap<String, Vec<(String, Range<usize>)>> = HashMap::new();
+        let mut pending: HashMap<Marker, Vec<(String, Range<usize>)>> = HashMap::new();
 
         for statement in target.content() {
             match statement {
@@ -83,11 +83,11 @@ impl LintRunner<SqfLintData> for Runner {
                     let Some(name) = marker_name(name) else {
                         continue;
                     };
-                    pending.entry(name.clone()).or_default().push((cmd.to_string(), cmd_span.clone()));
+                    pending.entry(name).or_default().push((cmd.to_string(), cmd_span.clone()));
                 }
                 Statement::Expression(_, _) => {}
                 Statement::AssignGlobal(name, _, _) | Statement::AssignLocal(name, _, _) => {
-                    if let Some(existing) = pending.remove(name) {
+                    if let Some(existing) = pending.remove(&Marker::Variable(name.to_lowercase())) {
                         if existing.len() > 1 {
                             codes.push(Arc::new(CodeS24MarkerSpam::new(existing, processed, config.severity())));
                         }
@@ -107,13 +107,22 @@ impl LintRunner<SqfLintData> for Runner {
 }
 
 fn is_marker_global(cmd: &str) -> bool {
-    cmd.starts_with("setMarker") && !cmd.ends_with("Local")
+    let cmd = cmd.to_lowercase();
+    cmd.starts_with("setmarker") && !cmd.ends_with("local")
 }
 
-fn marker_name(var: &Expression) -> Option<String> {
+/// A marker is known by its name, or by the variable that holds its name
+#[derive(PartialEq, Eq, Hash)]
+enum Marker {
+    Variable(String),
+    Name(String),
+}
+
+fn marker_name(var: &Expression) -> Option<Marker> {
     match var {
-        Expression::Variable(name, _) => Some(name.clone()),
-        Expression::String(name, _, _) => Some(name.to_string()),
+        // variables are not case sensitive
+        Expression::Variable(name, _) => Some(Marker::Variable(name.to_lowercase())),
+        Expression::String(name, _, _) => Some(Marker::Name(name.to_string())),
         _ => None,
     }
 }
-- 
2.43.0


From 2248aeb745525a2bbae47dc5244ad0b0a8cd97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 074/124] fix: take the oldest version of an event that several
 kinds of targets know

---
 libs/sqf/src/analyze/lints/s02_event_handlers.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 6d74f92..730e5cf 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -268,13 +268,19 @@ fn check_version(
         // TODO what to do here?
         return Vec::new();
     };
-    let Some((_, eh)) = eh.iter().find(|(ins, _)| ns.contains(ins)) else {
+    // one event can be known to several kinds of targets
+    let Some(versions) = eh
+        .iter()
+        .filter(|(ins, _)| ns.contains(ins))
+        .map(|(_, eh)| eh.since().and_then(|since| since.arma_3()))
+        .collect::<Option<Vec<_>>>()
+    else {
         return Vec::new();
     };
-    let Some(since) = eh.since() else {
-        return Vec::new();
-    };
-    let Some(version) = since.arma_3() else {
+    let Some(version) = versions
+        .into_iter()
+        .reduce(|a, b| if b < a { b } else { a })
+    else {
         return Vec::new();
     };
     let mut errors: Codes = Vec::new();
-- 
2.43.0


From bc49e9bb3c798ff87ba18221f8e7c1ce95177bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 075/124] fix: begin the label of the required version like
 every other label

---
 libs/sqf/src/analyze/lints/s01_command_required_version.rs | 4 ++--
 libs/sqf/src/analyze/lints/s02_event_handlers.rs           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s01_command_required_version.rs b/libs/sqf/src/analyze/lints/s01_command_required_version.rs
index 46a7cb9..e8ccee7 100644
--- a/libs/sqf/src/analyze/lints/s01_command_required_version.rs
+++ b/libs/sqf/src/analyze/lints/s01_command_required_version.rs
@@ -177,8 +177,8 @@ impl CodeS01CommandRequiredVersion {
         self.diagnostic = Some(diag.with_label(
             Label::secondary(self.required.1.clone(), self.required.2.clone()).with_message(
                 self.required.0.map_or_else(
-                    || "CfgPatches entry doesn't specify `requiredVersion`".to_string(),
-                    |required| format!("CfgPatches entry requires version {required}"),
+                    || "the CfgPatches entry doesn't specify `requiredVersion`".to_string(),
+                    |required| format!("the CfgPatches entry requires version {required}"),
                 ),
             ),
         ));
diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 730e5cf..d0da38d 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -646,8 +646,8 @@ impl CodeS02InsufficientVersion {
         self.diagnostic = Some(diag.with_label(
             Label::secondary(self.required.1.clone(), self.required.2.clone()).with_message(
                 self.required.0.map_or_else(
-                    || "CfgPatches entry doesn't specify `requiredVersion`".to_string(),
-                    |required| format!("CfgPatches entry requires version {required}"),
+                    || "the CfgPatches entry doesn't specify `requiredVersion`".to_string(),
+                    |required| format!("the CfgPatches entry requires version {required}"),
                 ),
             ),
         ));
-- 
2.43.0


From 0979ff3c229d7a26f28d6c7d89afc512d1790cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 076/124] fix: end every label of a report in the file it
 starts in

---
 .../src/analyze/lints/c06_unexpected_array.rs | 16 +++-----------
 .../src/analyze/lints/c07_expected_array.rs   | 16 +++-----------
 .../analyze/lints/s21_invalid_comparisons.rs  | 13 ++---------
 .../lints/s23_reassign_reserved_variable.rs   |  9 ++------
 libs/sqf/src/analyze/lints/s24_marker_spam.rs |  9 ++------
 .../workspace/src/reporting/diagnostic/mod.rs | 22 ++++---------------
 libs/workspace/src/reporting/processed.rs     | 19 ++++++++++++++++
 7 files changed, 35 insertions(+), 69 deletions(-)

diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 9146800..1915266 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -139,24 +139,14 @@ impl Code06UnexpectedArray {
         else {
             panic!("Code06UnexpectedArray::generate_processed called on non-Code06UnexpectedArray property");
         };
-        let array_start = processed
-            .mapping(array.span.start)
-            .expect("mapping should exist");
-        let array_file = processed
-            .source(array_start.source())
-            .expect("source should exist");
-        let array_end = processed
-            .mapping(array.span.end)
+        let (array_file, array_span) = processed
+            .original_span(array.span.clone())
             .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
         self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
             diag.labels.push(
-                Label::secondary(
-                    array_file.0.clone(),
-                    array_start.original_start()..array_end.original_start(),
-                )
-                .with_message("unexpected array"),
+                Label::secondary(array_file.clone(), array_span).with_message("unexpected array"),
             );
         }
         self
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index 7b497f5..11dde76 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -163,21 +163,11 @@ impl Code07ExpectedArray {
         self.diagnostic =
             Diagnostic::from_code_processed(&self, name.span.start..possible_end, processed);
         if let Some(diag) = &mut self.diagnostic {
-            let value_start = processed
-                .mapping(value.span().start)
+            let (value_file, value_span) = processed
+                .original_span(value.span())
                 .expect("mapping should exist");
-            let value_end = processed
-                .mapping(value.span().end)
-                .expect("mapping should exist");
-            let value_file = processed
-                .source(value_start.source())
-                .expect("source should exist");
             diag.labels.push(
-                Label::secondary(
-                    value_file.0.clone(),
-                    value_start.original_start()..value_end.original_start(),
-                )
-                .with_message("not an array"),
+                Label::secondary(value_file.clone(), value_span).with_message("not an array"),
             );
         }
         self
diff --git a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
index 7dc5feb..b38c90d 100644
--- a/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
+++ b/libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs
@@ -397,19 +397,10 @@ impl CodeS21InvalidComparisons {
         };
         diag = diag.clear_labels();
         for span in &[self.issue.span_a.clone(), self.issue.span_b.clone()] {
-            let Some(map_start) = processed.mapping(span.start) else {
+            let Some((file, span)) = processed.original_span(span.clone()) else {
                 return self;
             };
-            let Some(map_end) = processed.mapping(span.end) else {
-                return self;
-            };
-            let Some(map_file) = processed.source(map_start.source()) else {
-                return self;
-            };
-            diag.labels.push(Label::primary(
-                map_file.0.clone(),
-                map_start.original_start()..map_end.original_start(),
-            ));
+            diag.labels.push(Label::primary(file.clone(), span));
         }
         self.diagnostic = Some(diag);
         self
diff --git a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
index b97587b..50d8f1a 100644
--- a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
+++ b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
@@ -295,11 +295,6 @@ impl CodeS23ReassignReservedVariable {
 }
 
 fn get_span_info(span: Range<usize>, processed: &Processed) -> Option<(WorkspacePath, Range<usize>)> {
-    let map_start = processed.mapping(span.start)?;
-    let map_end = processed.mapping(span.end)?;
-    let map_file = processed.source(map_start.source())?;
-    Some((
-        map_file.0.clone(),
-        map_start.original_start()..map_end.original_start(),
-    ))
+    let (file, span) = processed.original_span(span)?;
+    Some((file.clone(), span))
 }
diff --git a/libs/sqf/src/analyze/lints/s24_marker_spam.rs b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
index 417220a..b6c55ec 100644
--- a/libs/sqf/src/analyze/lints/s24_marker_spam.rs
+++ b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
@@ -207,11 +207,6 @@ impl CodeS24MarkerSpam {
 }
 
 fn get_span_info(span: &Range<usize>, processed: &Processed) -> Option<(WorkspacePath, Range<usize>)> {
-    let map_start = processed.mapping(span.start)?;
-    let map_end = processed.mapping(span.end)?;
-    let map_file = processed.source(map_start.source())?;
-    Some((
-        map_file.0.clone(),
-        map_start.original_start()..map_end.original_start(),
-    ))
+    let (file, span) = processed.original_span(span.clone())?;
+    Some((file.clone(), span))
 }
diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1f2dffd..36376d0 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -60,27 +60,13 @@ impl Diagnostic {
 
     pub fn from_code_processed(
         code: &impl Code,
-        mut span: std::ops::Range<usize>,
+        span: std::ops::Range<usize>,
         processed: &crate::reporting::Processed,
     ) -> Option<Self> {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
-
-        // Error out out bounds, will never show, just use last char
-        let last = processed.as_str().chars().count().saturating_sub(1);
-        span.start = span.start.min(last);
-        span.end = span.end.min(last);
-        let map_start = processed.mapping(span.start)?;
-        let map_end = processed.mapping(span.end)?;
-        let map_file = processed.source(map_start.source())?;
-        let start = map_start.original_start();
-        let mut end = map_end.original_start();
-        if map_end.source() != map_start.source() || end < start {
-            // the span ends in another file, or before a macro was used
-            end = map_start.original_end().max(start);
-        }
-        diag.labels.push(
-            Label::primary(map_file.0.clone(), start..end).with_message(code.label_message()),
-        );
+        let (file, span) = processed.original_span(span)?;
+        diag.labels
+            .push(Label::primary(file.clone(), span).with_message(code.label_message()));
         diag.link = code.link().map(std::string::ToString::to_string);
         if let Some(note) = code.note() {
             diag.notes.push(note);
diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 017178e..04de7db 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -257,6 +257,25 @@ impl Processed {
         self.mappings(offset).last().copied()
     }
 
+    #[must_use]
+    /// Get the file, and the range in it, that a span in the stringified output is from
+    pub fn original_span(&self, mut span: Range<usize>) -> Option<(&WorkspacePath, Range<usize>)> {
+        // Error out out bounds, will never show, just use last char
+        let last = self.as_str().chars().count().saturating_sub(1);
+        span.start = span.start.min(last);
+        span.end = span.end.min(last);
+        let map_start = self.mapping(span.start)?;
+        let map_end = self.mapping(span.end)?;
+        let (file, _) = self.source(map_start.source())?;
+        let start = map_start.original_start();
+        let mut end = map_end.original_start();
+        if map_end.source() != map_start.source() || end < start {
+            // the span ends in another file, or before a macro was used
+            end = map_start.original_end().max(start);
+        }
+        Some((file, start..end))
+    }
+
     #[must_use]
     /// Get the macros defined
     pub const fn macros(&self) -> &HashMap<String, Vec<Position>> {
-- 
2.43.0


From d4474f196c109e7edfdb97b1440bf08a95f09721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 077/124] fix: use the installed game as P drive also without
 documents folder or tools settings

---
 libs/workspace/src/pdrive.rs | 44 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/libs/workspace/src/pdrive.rs b/libs/workspace/src/pdrive.rs
index 9b398af..bd06380 100644
--- a/libs/workspace/src/pdrive.rs
+++ b/libs/workspace/src/pdrive.rs
@@ -161,37 +161,41 @@ pub fn search() -> Option<PDrive> {
     }
 
     // Check if the P drive exists, unmapped, at ~/Documents/Arma 3 Projects
-    let user_documents = dirs::document_dir()?;
-    let path = user_documents.join("Arma 3 Projects");
-    let path_a3 = path.join("a3");
-    if path_a3.is_dir() {
-        return Some(PDrive::Tools(
-            AltrootFS::new(PhysicalFS::new(path).into()).into(),
-            path_a3,
-        ));
+    if let Some(user_documents) = dirs::document_dir() {
+        let path = user_documents.join("Arma 3 Projects");
+        let path_a3 = path.join("a3");
+        if path_a3.is_dir() {
+            return Some(PDrive::Tools(
+                AltrootFS::new(PhysicalFS::new(path).into()).into(),
+                path_a3,
+            ));
+        }
     }
 
     // Loop up the arma 3 tools, check for a custom P drive mapping
     if let Some(tools_path) = steam::find_app(233_800) {
         let settings = tools_path.join("settings.ini");
-        let settings = std::fs::read_to_string(settings).ok()?;
+        let settings = std::fs::read_to_string(settings).unwrap_or_default();
         let mut using_user_path = false;
-        let mut pdrive_path = { dirs::document_dir()?.join("Arma 3 Projects") };
+        let mut pdrive_path = None;
         for line in settings.lines() {
             if line == "P_DriveUser=1" {
                 using_user_path = true;
-            } else if line.starts_with("P_DrivePath=") && using_user_path {
-                let path = line.split('=').nth(1)?;
-                pdrive_path = PathBuf::from(path);
+            } else if let Some(path) = line.strip_prefix("P_DrivePath=") {
+                if using_user_path {
+                    pdrive_path = Some(PathBuf::from(path));
+                }
             }
         }
-        let path = tools_path.join(pdrive_path);
-        let path_a3 = path.join("a3");
-        if path_a3.is_dir() {
-            return Some(PDrive::Tools(
-                AltrootFS::new(PhysicalFS::new(path).into()).into(),
-                path_a3,
-            ));
+        if let Some(path) = pdrive_path {
+            let path = tools_path.join(path);
+            let path_a3 = path.join("a3");
+            if path_a3.is_dir() {
+                return Some(PDrive::Tools(
+                    AltrootFS::new(PhysicalFS::new(path).into()).into(),
+                    path_a3,
+                ));
+            }
         }
     }
 
-- 
2.43.0


From b3040e6094dd7872a73f2dc63690e02dd2033756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 078/124] fix: read the addons of the game on every system and
 without every expansion

---
 libs/workspace/src/pdrive.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/libs/workspace/src/pdrive.rs b/libs/workspace/src/pdrive.rs
index bd06380..82e5beb 100644
--- a/libs/workspace/src/pdrive.rs
+++ b/libs/workspace/src/pdrive.rs
@@ -14,19 +14,19 @@ use super::Error;
 
 const DIRS: [&str; 14] = [
     "Addons",
-    "AoW\\Addons",
-    "Argo\\Addons",
-    "Contact\\Addons",
-    "Curator\\Addons",
-    "Enoch\\Addons",
-    "Expansion\\Addons",
-    "Heli\\Addons",
-    "Jets\\Addons",
-    "Kart\\Addons",
-    "Mark\\Addons",
-    "Orange\\Addons",
-    "Tacops\\Addons",
-    "Tank\\Addons",
+    "AoW/Addons",
+    "Argo/Addons",
+    "Contact/Addons",
+    "Curator/Addons",
+    "Enoch/Addons",
+    "Expansion/Addons",
+    "Heli/Addons",
+    "Jets/Addons",
+    "Kart/Addons",
+    "Mark/Addons",
+    "Orange/Addons",
+    "Tacops/Addons",
+    "Tank/Addons",
 ];
 
 #[derive(Debug, PartialEq, Eq)]
@@ -89,7 +89,12 @@ impl PDriveOnDemand {
             cache: {
                 let mut cache = HashMap::new();
                 for dir in &DIRS {
-                    for addon in std::fs::read_dir(p.join(dir))? {
+                    let addons = match std::fs::read_dir(p.join(dir)) {
+                        // not every expansion has to be installed
+                        Err(e) if e.kind() == std::io::ErrorKind::NotFound => continue,
+                        addons => addons?,
+                    };
+                    for addon in addons {
                         let addon = addon?;
                         let path = addon.path();
                         if path.is_file() {
-- 
2.43.0


From 332cfd519f74bfd19df1a3a288383a6a2a62a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 079/124] fix: find files of the game in any case, and no crash
 on other paths

---
 libs/workspace/src/pdrive.rs | 50 +++++++++++++++---------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/libs/workspace/src/pdrive.rs b/libs/workspace/src/pdrive.rs
index 82e5beb..48e08ca 100644
--- a/libs/workspace/src/pdrive.rs
+++ b/libs/workspace/src/pdrive.rs
@@ -105,7 +105,7 @@ impl PDriveOnDemand {
                                 path.file_stem()
                                     .expect("file stem should be able to be extracted from path")
                                     .to_string_lossy()
-                                    .to_string(),
+                                    .to_lowercase(),
                                 path,
                             );
                         }
@@ -117,37 +117,27 @@ impl PDriveOnDemand {
     }
 
     fn path_to(&self, path: &str) -> Option<VfsPath> {
-        if self
-            .root
-            .join(path)
-            .expect("path can be joined")
-            .exists()
-            .expect("path exists")
-        {
-            return Some(self.root.join(path).expect("path can be joined"));
-        }
-        let parts = path.split('/').collect::<Vec<_>>();
-        let pbo_name = parts[2];
-        if let Some(p) = self.cache.get(pbo_name) {
-            let source = parts[3..].join("/");
-            let dest = parts.join("/");
-            let dest_path = self.root.join(dest).expect("path can be joined");
-            if dest_path.exists().expect("path exists") {
-                return Some(dest_path);
-            }
-            let mut pbo = ReadablePbo::from(File::open(p).ok()?).ok()?;
-            let mut file = pbo.file(&source).ok()??;
-            let _ = dest_path.parent().create_dir_all();
-            if let Err(e) = std::io::copy(
-                &mut file,
-                &mut dest_path.create_file().expect("file can be created"),
-            ) {
-                error!("Failed to extract file from PBO: {}", e);
-                return None;
-            }
+        let dest_path = self.root.join(path).ok()?;
+        if dest_path.exists().expect("path exists") {
             return Some(dest_path);
         }
-        None
+        let mut parts = dest_path.as_str().trim_start_matches('/').splitn(3, '/');
+        if !parts.next()?.eq_ignore_ascii_case("a3") {
+            return None;
+        }
+        let pbo = self.cache.get(&parts.next()?.to_lowercase())?;
+        let source = parts.next()?;
+        let mut pbo = ReadablePbo::from(File::open(pbo).ok()?).ok()?;
+        let mut file = pbo.file(source).ok()??;
+        let _ = dest_path.parent().create_dir_all();
+        if let Err(e) = std::io::copy(
+            &mut file,
+            &mut dest_path.create_file().expect("file can be created"),
+        ) {
+            error!("Failed to extract file from PBO: {}", e);
+            return None;
+        }
+        Some(dest_path)
     }
 }
 
-- 
2.43.0


From c68f3cceee1ba099dd192da491b3396b4c138df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 080/124] fix: resolve relative includes in files of the game
 that are not extracted yet

---
 libs/workspace/src/path.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 63043c7..5a8667d 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -309,7 +309,13 @@ impl WorkspacePath {
                 }));
             }
         }
-        let ret_path = self.data.path.parent().join(&path)?;
+        let mut ret_path = self.data.path.parent().join(&path)?;
+        if self.data.path.root() != self.data.workspace.vfs.root() && !ret_path.exists()? {
+            // a file of the P drive, which may have to be extracted
+            if let Some(pdrive) = &self.workspace().pdrive {
+                ret_path = pdrive.path_to(ret_path.as_str()).unwrap_or(ret_path);
+            }
+        }
         if ret_path.exists()? {
             Ok(Some(LocateResult {
                 case_mismatch: if is_wrong_case(&ret_path, &path) {
-- 
2.43.0


From ef373b426372d11959b44e4423735170f873d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 081/124] fix: never leave or use a partly extracted file of
 the game

---
 libs/workspace/src/pdrive.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/libs/workspace/src/pdrive.rs b/libs/workspace/src/pdrive.rs
index 48e08ca..b8f2b87 100644
--- a/libs/workspace/src/pdrive.rs
+++ b/libs/workspace/src/pdrive.rs
@@ -1,8 +1,10 @@
 use std::{
     collections::HashMap,
     env::temp_dir,
-    fs::File,
+    fs::{create_dir_all, remove_file, rename, File},
+    io::Read,
     path::{Path, PathBuf},
+    sync::atomic::{AtomicUsize, Ordering},
 };
 
 use hemtt_common::steam;
@@ -129,16 +131,32 @@ impl PDriveOnDemand {
         let source = parts.next()?;
         let mut pbo = ReadablePbo::from(File::open(pbo).ok()?).ok()?;
         let mut file = pbo.file(source).ok()??;
-        let _ = dest_path.parent().create_dir_all();
-        if let Err(e) = std::io::copy(
-            &mut file,
-            &mut dest_path.create_file().expect("file can be created"),
-        ) {
+        if let Err(e) = self.extract(&mut file, dest_path.as_str()) {
             error!("Failed to extract file from PBO: {}", e);
             return None;
         }
         Some(dest_path)
     }
+
+    /// Write the file at once, it may be looked up by others at any time
+    fn extract(&self, file: &mut impl Read, path: &str) -> Result<(), std::io::Error> {
+        static NEXT: AtomicUsize = AtomicUsize::new(0);
+        let dest = self.real_root.join(path.trim_start_matches('/'));
+        if let Some(parent) = dest.parent() {
+            create_dir_all(parent)?;
+        }
+        let part = self.real_root.join(format!(
+            "{}-{}.part",
+            std::process::id(),
+            NEXT.fetch_add(1, Ordering::Relaxed)
+        ));
+        File::create(&part)
+            .and_then(|mut out| std::io::copy(file, &mut out))
+            .and_then(|_| rename(&part, dest))
+            .inspect_err(|_| {
+                let _ = remove_file(&part);
+            })
+    }
 }
 
 /// Search for the P drive, returns a `VfsPath` and the path to the a3 folder if found
-- 
2.43.0


From 11d5184fd55ef410bd7e07ee71ef43f17d44a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 082/124] fix: never unpack a PBO to outside of the output
 directory

---
 bin/src/utils/pbo/unpack.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/bin/src/utils/pbo/unpack.rs b/bin/src/utils/pbo/unpack.rs
index 4c11063..273b993 100644
--- a/bin/src/utils/pbo/unpack.rs
+++ b/bin/src/utils/pbo/unpack.rs
@@ -1,7 +1,7 @@
 use std::{
     fs::{File, OpenOptions},
     io::Write,
-    path::PathBuf,
+    path::{Component, PathBuf},
 };
 
 use hemtt_pbo::ReadablePbo;
@@ -28,6 +28,11 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
         error!("Output directory already exists");
         return Ok(());
     }
+    let files = pbo
+        .files()
+        .into_iter()
+        .map(|header| Ok((local_path(header.filename())?, header)))
+        .collect::<Result<Vec<_>, Error>>()?;
     std::fs::create_dir_all(&output)?;
     for (key, value) in pbo.properties() {
         debug!("{}: {}", key, value);
@@ -42,8 +47,8 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
             file.write_all(format!("{key}={value}\n").as_bytes())?;
         }
     }
-    for header in pbo.files() {
-        let path = output.join(header.filename().replace('\\', "/"));
+    for (path, header) in files {
+        let path = output.join(path);
         std::fs::create_dir_all(path.parent().expect("must have parent, just joined"))?;
         let mut out = File::create(path)?;
         let mut file = pbo
@@ -53,3 +58,19 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
     }
     Ok(())
 }
+
+/// The path of a file in the folder that is unpacked to, which it must not leave
+fn local_path(filename: &str) -> Result<PathBuf, Error> {
+    let path = PathBuf::from(filename.replace('\\', "/"));
+    if filename.contains(':')
+        || path
+            .components()
+            .any(|part| !matches!(part, Component::Normal(_) | Component::CurDir))
+    {
+        return Err(Error::Io(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("`{filename}` is outside of the output directory"),
+        )));
+    }
+    Ok(path)
+}
-- 
2.43.0


From 32c470a1096eec6bc641b9dc445d347abed2c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:50 +0000
Subject: [PATCH 083/124] fix: leave strings in single quotes and comments
 alone when fixing the case of commands

---
 bin/src/utils/sqf/case.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/bin/src/utils/sqf/case.rs b/bin/src/utils/sqf/case.rs
index ca7a514..bedce56 100644
--- a/bin/src/utils/sqf/case.rs
+++ b/bin/src/utils/sqf/case.rs
@@ -51,7 +51,8 @@ pub fn execute(args: &SqfCaseArgs) -> Result<(), Error> {
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum InsideQuote {
     No,
-    Yes,
+    /// Which quote it is, only the same one ends it
+    Yes(char),
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -83,7 +84,10 @@ fn file(file: &Path) -> Result<bool, Error> {
     let mut in_quotes = InsideQuote::No;
     let mut in_comment = InsideComment::No;
     let mut inside_ignored_macro = InsideIgnoredMacro::No;
+    // the character before, unless it is part of the mark that starts or ends a comment
+    let mut last = None;
     for char in content.chars() {
+        let mut mark = false;
         match (char, in_quotes, in_comment, inside_ignored_macro) {
             (
                 'a'..='z' | 'A'..='Z' | '0'..='9' | '_',
@@ -93,19 +97,22 @@ fn file(file: &Path) -> Result<bool, Error> {
             ) => {
                 buffer.push(char);
             }
-            ('"', _, InsideComment::No, _) => {
-                if in_quotes == InsideQuote::No {
-                    check_buffer(&mut out, &mut buffer, &wiki);
-                    in_quotes = InsideQuote::Yes;
-                } else {
+            ('"' | '\'', InsideQuote::No, InsideComment::No, _) => {
+                check_buffer(&mut out, &mut buffer, &wiki);
+                in_quotes = InsideQuote::Yes(char);
+                out.push(char);
+            }
+            (_, InsideQuote::Yes(quote), InsideComment::No, _) => {
+                if char == quote {
                     in_quotes = InsideQuote::No;
                 }
                 out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::No, _) => {
                 check_buffer(&mut out, &mut buffer, &wiki);
-                if out.ends_with('/') {
+                if last == Some('/') {
                     in_comment = InsideComment::Single;
+                    mark = true;
                 }
                 out.push(char);
             }
@@ -118,14 +125,16 @@ fn file(file: &Path) -> Result<bool, Error> {
             }
             ('*', InsideQuote::No, InsideComment::No, _) => {
                 check_buffer(&mut out, &mut buffer, &wiki);
-                if out.ends_with('/') {
+                if last == Some('/') {
                     in_comment = InsideComment::Multi;
+                    mark = true;
                 }
                 out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::Multi, _) => {
-                if out.ends_with('*') {
+                if last == Some('*') {
                     in_comment = InsideComment::No;
+                    mark = true;
                 }
                 out.push(char);
             }
@@ -152,11 +161,11 @@ fn file(file: &Path) -> Result<bool, Error> {
                 check_buffer(&mut out, &mut buffer, &wiki);
                 out.push(char);
             }
-            (_, InsideQuote::Yes, _, _)
-            | (_, _, InsideComment::Single | InsideComment::Multi, _) => {
+            (_, _, InsideComment::Single | InsideComment::Multi, _) => {
                 out.push(char);
             }
         }
+        last = (!mark).then_some(char);
     }
     // flush buffer if we ended on non-whitepsace
     check_buffer(&mut out, &mut buffer, &wiki);
-- 
2.43.0


From b3c06deaacfe55695a05c0fd3a3f914f13359b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 084/124] fix: list each addon once in the coverage of the
 localization

---
 bin/src/commands/localization/coverage.rs | 57 ++++++++++++-----------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/bin/src/commands/localization/coverage.rs b/bin/src/commands/localization/coverage.rs
index 0585d37..c829c67 100644
--- a/bin/src/commands/localization/coverage.rs
+++ b/bin/src/commands/localization/coverage.rs
@@ -115,34 +115,35 @@ pub fn coverage(cmd: &Command) -> Result<Report, Error> {
                     return Ok(Report::new());
                 }
             };
-            project.packages().iter().for_each(|package| {
-                let totals = package.totals();
-                missing!(totals, missing, original, addon.folder());
-                missing!(totals, missing, english, addon.folder());
-                missing!(totals, missing, czech, addon.folder());
-                missing!(totals, missing, french, addon.folder());
-                missing!(totals, missing, spanish, addon.folder());
-                missing!(totals, missing, italian, addon.folder());
-                missing!(totals, missing, polish, addon.folder());
-                missing!(totals, missing, portuguese, addon.folder());
-                missing!(totals, missing, russian, addon.folder());
-                missing!(totals, missing, german, addon.folder());
-                missing!(totals, missing, korean, addon.folder());
-                missing!(totals, missing, japanese, addon.folder());
-                missing!(totals, missing, chinese, addon.folder());
-                missing!(totals, missing, chinesesimp, addon.folder());
-                missing!(totals, missing, turkish, addon.folder());
-                missing!(totals, missing, swedish, addon.folder());
-                missing!(totals, missing, slovak, addon.folder());
-                missing!(totals, missing, serbocroatian, addon.folder());
-                missing!(totals, missing, norwegian, addon.folder());
-                missing!(totals, missing, icelandic, addon.folder());
-                missing!(totals, missing, hungarian, addon.folder());
-                missing!(totals, missing, greek, addon.folder());
-                missing!(totals, missing, finnish, addon.folder());
-                missing!(totals, missing, dutch, addon.folder());
-                global.merge(&totals);
-            });
+            let mut totals = Totals::default();
+            for package in project.packages() {
+                totals.merge(&package.totals());
+            }
+            missing!(totals, missing, original, addon.folder());
+            missing!(totals, missing, english, addon.folder());
+            missing!(totals, missing, czech, addon.folder());
+            missing!(totals, missing, french, addon.folder());
+            missing!(totals, missing, spanish, addon.folder());
+            missing!(totals, missing, italian, addon.folder());
+            missing!(totals, missing, polish, addon.folder());
+            missing!(totals, missing, portuguese, addon.folder());
+            missing!(totals, missing, russian, addon.folder());
+            missing!(totals, missing, german, addon.folder());
+            missing!(totals, missing, korean, addon.folder());
+            missing!(totals, missing, japanese, addon.folder());
+            missing!(totals, missing, chinese, addon.folder());
+            missing!(totals, missing, chinesesimp, addon.folder());
+            missing!(totals, missing, turkish, addon.folder());
+            missing!(totals, missing, swedish, addon.folder());
+            missing!(totals, missing, slovak, addon.folder());
+            missing!(totals, missing, serbocroatian, addon.folder());
+            missing!(totals, missing, norwegian, addon.folder());
+            missing!(totals, missing, icelandic, addon.folder());
+            missing!(totals, missing, hungarian, addon.folder());
+            missing!(totals, missing, greek, addon.folder());
+            missing!(totals, missing, finnish, addon.folder());
+            missing!(totals, missing, dutch, addon.folder());
+            global.merge(&totals);
         }
     }
 
-- 
2.43.0


From ac319d5e3d8e339de5235b43d6f8aab9e485e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 085/124] fix: launch with the project's own build on Linux

---
 bin/src/commands/launch/launcher.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index b05c11f..5585a67 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -85,11 +85,7 @@ impl Launcher {
         self.workshop.push({
             let mut path = std::env::current_dir()?;
             path.push(".hemttout/dev");
-            if cfg!(target_os = "linux") {
-                format!("Z:{}", path.display())
-            } else {
-                path.display().to_string()
-            }
+            path.display().to_string()
         });
         Ok(())
     }
@@ -319,11 +315,7 @@ impl Launcher {
     }
 
     pub fn add_external_mod(&mut self, path: String) {
-        self.workshop.push(if cfg!(target_os = "linux") {
-            format!("Z:{path}")
-        } else {
-            path
-        });
+        self.workshop.push(path);
     }
 
     pub fn add_options(&mut self, options: Vec<String>) {
-- 
2.43.0


From d50cee3ccb90cace0a9efe0551d02a182c65cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 086/124] fix: launch with file patching on Linux

---
 bin/src/commands/launch/launcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 5585a67..25d183e 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -241,7 +241,7 @@ impl Launcher {
             Ok(Some(if cfg!(target_os = "windows") {
                 super::platforms::windows(&self.arma3, &self.executable, &instances[0])?
             } else {
-                super::platforms::linux(&args)?
+                super::platforms::linux(&instances[0])?
             }))
         } else {
             let mut children = Vec::new();
-- 
2.43.0


From 443ec4a6d71081e056e7563a468ccdb7edf04c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:03 +0000
Subject: [PATCH 087/124] fix: build without a crash when launching no instance

---
 bin/src/commands/launch/launcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 25d183e..071647d 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -252,9 +252,7 @@ impl Launcher {
                     super::platforms::linux(&instance)?
                 });
             }
-            Ok(Some(
-                children.into_iter().next().expect("At least one child"),
-            ))
+            Ok(children.into_iter().next())
         }
     }
 
-- 
2.43.0


From e48b13f2aa615927599b0e265af53d5db46a3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 088/124] fix: launch with native Steam where flatpak is not
 installed

---
 bin/src/commands/launch/platforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/platforms.rs b/bin/src/commands/launch/platforms.rs
index 4bfc765..76c3ece 100644
--- a/bin/src/commands/launch/platforms.rs
+++ b/bin/src/commands/launch/platforms.rs
@@ -28,7 +28,7 @@ pub fn linux(args: &[String]) -> Result<Child, Error> {
         .arg("list")
         .arg("--app")
         .output()
-        .map(|o| String::from_utf8_lossy(&o.stdout).contains("com.valvesoftware.Steam"))?;
+        .is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains("com.valvesoftware.Steam"));
     let child = if flatpak {
         warn!(
             "A flatpak override will be created to grant Steam access to the .hemttout directory"
-- 
2.43.0


From 8e71f4a2dc02fdc46123eb03a274bcb4008ccd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 089/124] fix: replace broken links on systems other than
 Windows

---
 bin/src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/src/link.rs b/bin/src/link.rs
index 1d29084..a8e7c2c 100644
--- a/bin/src/link.rs
+++ b/bin/src/link.rs
@@ -106,6 +106,10 @@ pub fn create_link(link: &PathBuf, target: &PathBuf) -> Result<(), Error> {
         );
         return Ok(());
     }
+    if link.is_symlink() {
+        trace!("removing broken symlink {:?}", link);
+        std::fs::remove_file(link)?;
+    }
     trace!("symlink {:?} => {:?}", link, target);
     std::os::unix::fs::symlink(target, link)?;
     Ok(())
-- 
2.43.0


From 9d679dd89f8a99a57ac81f49336f775c02396542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 090/124] fix: find launch presets with dots in their names

---
 bin/src/commands/launch/launcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 071647d..e1e9c23 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -98,7 +98,7 @@ impl Launcher {
     pub fn add_preset(&mut self, preset: &str, report: &mut Report) -> Result<(), Error> {
         let presets = std::env::current_dir()?.join(".hemtt/presets");
         trace!("Loading preset: {}", preset);
-        let html = presets.join(preset).with_extension("html");
+        let html = presets.join(format!("{}.html", preset.trim_end_matches(".html")));
         if !html.exists() {
             report.push(PresetNotFound::code(preset.to_string(), &presets));
             return Ok(());
-- 
2.43.0


From 7f50d57816ad56f8f83f0097ebc20a71e0bea870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 091/124] fix: count columns behind comments and quotes

---
 libs/preprocessor/src/parse/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index d4fe357..c2d6c9d 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -66,24 +66,23 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                             Symbol::Word(pair.as_str().to_string()),
                             Position::new(
                                 start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
+                                LineCol(start.0 + 2, (start.1 .0, start.1 .1 + 2)),
                                 path.clone(),
                             ),
                         )));
                     }
+                    col += pair.as_str().len();
                 } else {
                     let lines = pair.as_str().split('\n').collect::<Vec<_>>();
                     let count = lines.len() - 1;
                     line += count;
                     if count > 0 {
-                        col = lines
-                            .last()
-                            .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
-                    } else {
                         col = 0;
                     }
+                    col += lines
+                        .last()
+                        .expect("splitting always yields at least one line")
+                        .len();
                     if pair.as_str() == "//" {
                         // skip to end of line
                         skipping_comment = true;
@@ -93,14 +92,14 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
             Rule::single_quote => {
                 if !skipping_comment && !in_double_string {
                     in_single_string = !in_single_string;
-                    col += 1;
                 }
+                col += 1;
             }
             Rule::double_quote => {
                 if !skipping_comment && !in_single_string {
                     in_double_string = !in_double_string;
-                    col += 1;
                 }
+                col += 1;
             }
             _ => {
                 col += pair.as_str().len();
-- 
2.43.0


From b679885bd1cc9b53bea6d1aee03c334c4d547141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 092/124] fix: find magazines of magazine wells in any case

---
 libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
index ebd6028..aba08d8 100644
--- a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
+++ b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
@@ -148,7 +148,7 @@ impl LintRunner<SqfLintData> for Runner {
                             continue;
                         }
                     }
-                    if !classes.iter().any(|c| c.value == *value) {
+                    if !classes.iter().any(|c| c.value.eq_ignore_ascii_case(value)) {
                         codes.push(Arc::new(Code09MagwellMissingMagazine::new(
                             name.clone(),
                             span.clone(),
-- 
2.43.0


From cd1dfdf00951cd9cd7e0782788d22d821d010b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 093/124] fix: refuse textures with images shorter than their
 size

---
 libs/paa/src/mipmap.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 54cc62b..ceb500b 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -20,6 +20,19 @@ impl MipMap {
         let width = stream.read_u16::<LittleEndian>()?;
         let height = stream.read_u16::<LittleEndian>()?;
         let length = stream.read_u24::<LittleEndian>()?;
+        let needed = format.compressed_size(usize::from(width & 0x7fff), usize::from(height));
+        // LZO expands no byte to more than 255
+        let least = if width & 0x8000 == 0 {
+            needed
+        } else {
+            needed / 256
+        };
+        if (length as usize) < least {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "image data is too short for its size",
+            ));
+        }
         let mut buffer: Box<[u8]> = vec![0; length as usize].into_boxed_slice();
         stream.read_exact(&mut buffer)?;
         Ok(Self {
-- 
2.43.0


From 699e3f7bb056677ff4092c77645091ddb1a1ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 094/124] fix: report textures without an image

---
 bin/src/utils/paa/convert.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/src/utils/paa/convert.rs b/bin/src/utils/paa/convert.rs
index 321437b..5ccd8d6 100644
--- a/bin/src/utils/paa/convert.rs
+++ b/bin/src/utils/paa/convert.rs
@@ -22,7 +22,11 @@ pub fn execute(args: &PaaConvertArgs) -> Result<(), Error> {
         return Ok(());
     }
     let paa = hemtt_paa::Paa::read(std::fs::File::open(paa)?)?;
-    if let Err(e) = paa.maps()[0].get_image().save(output) {
+    let Some(map) = paa.maps().first() else {
+        error!("PAA has no images");
+        return Ok(());
+    };
+    if let Err(e) = map.get_image().save(output) {
         error!("Failed to save PNG: {}", e);
     } else {
         info!("PAA converted");
-- 
2.43.0


From 4cdc1979d05006362116d6ec148004e382d61dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 095/124] fix: say when an inspected config is missing or has
 errors

---
 bin/src/utils/config/inspect.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bin/src/utils/config/inspect.rs b/bin/src/utils/config/inspect.rs
index 26be1d7..ffdd73d 100644
--- a/bin/src/utils/config/inspect.rs
+++ b/bin/src/utils/config/inspect.rs
@@ -26,7 +26,11 @@ pub fn inspect(file: &PathBuf) -> Result<(), Error> {
     let workspacefiles = WorkspaceFiles::new();
     match report {
         Ok(report) => {
-            println!("Config is valid!");
+            if report.errors().is_empty() {
+                println!("Config is valid!");
+            } else {
+                println!("Config has errors!");
+            }
             if report.patches().is_empty() {
                 println!(" - Contains no CfgPatches");
             } else {
@@ -58,7 +62,13 @@ pub fn inspect(file: &PathBuf) -> Result<(), Error> {
 }
 
 pub fn get_report(file: &PathBuf) -> Result<Result<ConfigReport, Vec<Arc<dyn Code>>>, Error> {
-    assert!(file.is_file());
+    if !file.is_file() {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::NotFound,
+            format!("{} is not a file", file.display()),
+        )
+        .into());
+    }
     let folder = PathBuf::from(&file)
         .parent()
         .expect("File has no parent")
@@ -78,7 +88,11 @@ pub fn get_report(file: &PathBuf) -> Result<Result<ConfigReport, Vec<Arc<dyn Cod
                 .expect("valid utf-8"),
         )
         .expect("File is valid");
-    let processed = Processor::run(&source).map_err(|e| e.1)?;
+    let processed = match Processor::run(&source) {
+        Ok(processed) => processed,
+        Err((_, hemtt_preprocessor::Error::Code(code))) => return Ok(Err(vec![code])),
+        Err((_, e)) => return Err(e.into()),
+    };
     Ok(hemtt_config::parse(
         Some(&ProjectConfig::test_project()),
         &processed,
-- 
2.43.0


From 746a324ea7fbe841ec12c1c0ebea86bb56d9b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 096/124] fix: report a version that a hook breaks

---
 bin/src/modules/hook/libraries/hemtt.rs   | 10 +++++-----
 bin/src/modules/hook/libraries/project.rs | 14 +++++---------
 bin/src/modules/hook/mod.rs               |  2 +-
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 40a2bf9..339e518 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -4,7 +4,7 @@ use rhai::plugin::{
     NativeCallContext, PluginFunc, RhaiResult, TypeId,
 };
 
-use crate::context::Context;
+use crate::{context::Context, error::Error};
 
 use super::project::RhaiProject;
 
@@ -18,14 +18,14 @@ pub struct RhaiHemtt {
 }
 
 impl RhaiHemtt {
-    pub fn new(ctx: &Context) -> Self {
-        Self {
+    pub fn new(ctx: &Context) -> Result<Self, Error> {
+        Ok(Self {
             ctx: ctx.clone(),
             version: Version::try_from(env!("HEMTT_VERSION"))
                 .expect("hemtt version should be valid"),
-            project: RhaiProject::new(ctx),
+            project: RhaiProject::new(ctx)?,
             folder: ctx.folder().expect("folder exists").to_string(),
-        }
+        })
     }
 }
 
diff --git a/bin/src/modules/hook/libraries/project.rs b/bin/src/modules/hook/libraries/project.rs
index 2113a61..c90f437 100644
--- a/bin/src/modules/hook/libraries/project.rs
+++ b/bin/src/modules/hook/libraries/project.rs
@@ -4,7 +4,7 @@ use rhai::plugin::{
     RhaiResult, TypeId,
 };
 
-use crate::context::Context;
+use crate::{context::Context, error::Error};
 
 #[allow(clippy::module_name_repetitions)]
 #[derive(Debug, Clone)]
@@ -17,21 +17,17 @@ pub struct RhaiProject {
 }
 
 impl RhaiProject {
-    pub fn new(ctx: &Context) -> Self {
-        Self {
+    pub fn new(ctx: &Context) -> Result<Self, Error> {
+        Ok(Self {
             name: ctx.config().name().to_string(),
             prefix: ctx.config().prefix().to_string(),
             mainprefix: ctx
                 .config()
                 .mainprefix()
                 .map_or_else(String::new, std::string::ToString::to_string),
-            version: ctx
-                .config()
-                .version()
-                .get(ctx.workspace_path().vfs())
-                .expect("version config is valid to get to rhai module"),
+            version: ctx.config().version().get(ctx.workspace_path().vfs())?,
             // addons: ctx.addons().to_vec(),
-        }
+        })
     }
 }
 
diff --git a/bin/src/modules/hook/mod.rs b/bin/src/modules/hook/mod.rs
index 035b3a2..1533562 100644
--- a/bin/src/modules/hook/mod.rs
+++ b/bin/src/modules/hook/mod.rs
@@ -43,7 +43,7 @@ pub fn scope(ctx: &Context, vfs: bool) -> Result<Scope, Error> {
         ctx.build_folder().expect("build folder exists").clone(),
     );
 
-    scope.push_constant("HEMTT", RhaiHemtt::new(ctx));
+    scope.push_constant("HEMTT", RhaiHemtt::new(ctx)?);
 
     Ok(scope)
 }
-- 
2.43.0


From 1e065e4fee35cff2045830e7dd9d6adfc3bb0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 097/124] fix: fail when a called script does

---
 bin/src/modules/hook/libraries/hemtt.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 339e518..b3d9642 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -94,8 +94,16 @@ pub mod project_functions {
             }
             Hooks::run(&hemtt.ctx, path, false)
         }
-        inner_script(hemtt, name)
-            .map_err(|e| e.to_string().into())
-            .map(|(_, d)| d)
+        let (report, value) = inner_script(hemtt, name).map_err(|e| e.to_string())?;
+        if report.failed() {
+            return Err(report
+                .errors()
+                .iter()
+                .map(|e| e.message())
+                .collect::<Vec<_>>()
+                .join("\n")
+                .into());
+        }
+        Ok(value)
     }
 }
-- 
2.43.0


From 8c0d055b363b0536b99f0513550974b225f601ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 098/124] fix: find scripts with dots in their names

---
 bin/src/modules/hook/libraries/hemtt.rs | 7 +++++--
 bin/src/modules/hook/mod.rs             | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index b3d9642..d2b1a4b 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -36,7 +36,10 @@ pub mod project_functions {
     use rhai::EvalAltResult;
 
     use crate::{
-        modules::{hook::error::bhe1_script_not_found::ScriptNotFound, Hooks},
+        modules::{
+            hook::{error::bhe1_script_not_found::ScriptNotFound, script_path},
+            Hooks,
+        },
         report::Report,
         Error,
     };
@@ -80,7 +83,7 @@ pub mod project_functions {
     pub fn script(hemtt: &mut RhaiHemtt, name: &str) -> Result<Dynamic, Box<EvalAltResult>> {
         fn inner_script(hemtt: &mut RhaiHemtt, name: &str) -> Result<(Report, Dynamic), Error> {
             let scripts = hemtt.ctx.workspace_path().join(".hemtt")?.join("scripts")?;
-            let path = scripts.join(name)?.with_extension("rhai")?;
+            let path = script_path(&scripts, name)?;
             trace!("running script: {}", path.as_str());
             if !path.exists()? {
                 return Ok((
diff --git a/bin/src/modules/hook/mod.rs b/bin/src/modules/hook/mod.rs
index 1533562..ed496b3 100644
--- a/bin/src/modules/hook/mod.rs
+++ b/bin/src/modules/hook/mod.rs
@@ -121,7 +121,7 @@ impl Hooks {
     pub fn run_file(ctx: &Context, name: &str) -> Result<(Report, Dynamic), Error> {
         let mut report = Report::new();
         let scripts = ctx.workspace_path().join(".hemtt")?.join("scripts")?;
-        let path = scripts.join(name)?.with_extension("rhai")?;
+        let path = script_path(&scripts, name)?;
         trace!("running script: {}", path.as_str());
         if !path.exists()? {
             report.push(ScriptNotFound::code(name.to_owned(), &scripts)?);
@@ -187,6 +187,12 @@ impl Hooks {
     }
 }
 
+/// The path of a script, the extension of which may be left out
+fn script_path(scripts: &WorkspacePath, name: &str) -> Result<WorkspacePath, Error> {
+    let name = name.strip_suffix(".rhai").unwrap_or(name);
+    Ok(scripts.join(format!("{name}.rhai"))?)
+}
+
 impl Module for Hooks {
     fn name(&self) -> &'static str {
         "Hooks"
-- 
2.43.0


From e9f8e7d697b1d329a2aee8be686ab95e3baa8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:15 +0000
Subject: [PATCH 099/124] fix: copy folders to the path that is given

---
 bin/src/modules/hook/libraries/rfs/path.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bin/src/modules/hook/libraries/rfs/path.rs b/bin/src/modules/hook/libraries/rfs/path.rs
index c688c51..3044191 100644
--- a/bin/src/modules/hook/libraries/rfs/path.rs
+++ b/bin/src/modules/hook/libraries/rfs/path.rs
@@ -50,9 +50,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "copy", return_raw, pure)]
     pub fn copy(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::copy(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::copy(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::copy(path, other)
                 .map_err(|e| e.to_string().into())
@@ -64,9 +68,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "move", return_raw, pure)]
     pub fn _move(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::move_dir(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::move_dir(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::rename(path, other)
                 .map_err(|e| e.to_string().into())
-- 
2.43.0


From c38b94aca73402a2f082e5166ae0cd8bc053a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 100/124] fix: let scripts handle paths without a file name or
 listing

---
 bin/src/modules/hook/libraries/rfs/path.rs | 18 ++++++++++--------
 bin/src/modules/hook/libraries/vfs/path.rs |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bin/src/modules/hook/libraries/rfs/path.rs b/bin/src/modules/hook/libraries/rfs/path.rs
index 3044191..6c3ee74 100644
--- a/bin/src/modules/hook/libraries/rfs/path.rs
+++ b/bin/src/modules/hook/libraries/rfs/path.rs
@@ -37,9 +37,11 @@ pub mod path_functions {
         path.parent().unwrap().to_path_buf()
     }
 
-    #[rhai_fn(global, pure)]
-    pub fn file_name(path: &mut PathBuf) -> String {
-        path.file_name().unwrap().to_str().unwrap().to_string()
+    #[rhai_fn(global, pure, return_raw)]
+    pub fn file_name(path: &mut PathBuf) -> Result<String, Box<EvalAltResult>> {
+        path.file_name()
+            .map(|name| name.to_string_lossy().to_string())
+            .ok_or_else(|| format!("{} has no file name", path.display()).into())
     }
 
     #[rhai_fn(global, name = "to_string", name = "to_debug", pure)]
@@ -83,16 +85,16 @@ pub mod path_functions {
         res.map_or_else(|| Ok(true), Err)
     }
 
-    #[rhai_fn(global, pure)]
-    pub fn list(path: &mut PathBuf) -> rhai::Array {
+    #[rhai_fn(global, pure, return_raw)]
+    pub fn list(path: &mut PathBuf) -> Result<rhai::Array, Box<EvalAltResult>> {
         let mut list = Vec::new();
         if path.is_dir() {
-            for entry in std::fs::read_dir(path).expect("can't read dir") {
-                let entry = entry.expect("entry failed");
+            for entry in std::fs::read_dir(path).map_err(|e| e.to_string())? {
+                let entry = entry.map_err(|e| e.to_string())?;
                 list.push(Dynamic::from(entry.path()));
             }
         }
-        list
+        Ok(list)
     }
 
     #[rhai_fn(global, pure)]
diff --git a/bin/src/modules/hook/libraries/vfs/path.rs b/bin/src/modules/hook/libraries/vfs/path.rs
index e3738e6..6c781e8 100644
--- a/bin/src/modules/hook/libraries/vfs/path.rs
+++ b/bin/src/modules/hook/libraries/vfs/path.rs
@@ -77,7 +77,7 @@ pub mod path_functions {
     pub fn list(path: &mut VfsPath) -> Result<Array, Box<EvalAltResult>> {
         let mut list = Vec::new();
         if path.is_dir().map_err(|e| e.to_string())? {
-            for entry in path.read_dir().unwrap() {
+            for entry in path.read_dir().map_err(|e| e.to_string())? {
                 list.push(Dynamic::from(entry));
             }
         }
-- 
2.43.0


From f063eec9d6e88d81fbe01ea9ddb932bec9490a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:12 +0000
Subject: [PATCH 101/124] fix: tell editors columns in UTF-16 code units

---
 .../workspace/src/reporting/diagnostic/mod.rs | 33 ++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 36376d0..1056e3c 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -264,26 +264,21 @@ impl Diagnostic {
     ) -> Vec<(WorkspacePath, tower_lsp::lsp_types::Diagnostic)> {
         let mut diags = Vec::new();
         for label in &self.labels {
-            let start = label.span.start;
-            let end = label.span.end;
-            let start_line_index = files.line_index(&label.file, start).unwrap_or(0);
-            let end_line_index = files.line_index(&label.file, end).unwrap_or(0);
-            #[allow(clippy::cast_possible_truncation)]
+            let source = files.source(&label.file).unwrap_or_default();
+            let position = |offset: usize| {
+                let line = files.line_index(&label.file, offset).unwrap_or(0);
+                // the protocol counts UTF-16 code units
+                let character = files
+                    .line_range(&label.file, line)
+                    .ok()
+                    .and_then(|range| source.get(range.start..offset))
+                    .map_or(0, |before| before.encode_utf16().count());
+                #[allow(clippy::cast_possible_truncation)]
+                tower_lsp::lsp_types::Position::new(line as u32, character as u32)
+            };
             let range = tower_lsp::lsp_types::Range {
-                start: tower_lsp::lsp_types::Position {
-                    line: start_line_index as u32,
-                    character: files
-                        .column_number(&label.file, start_line_index, start)
-                        .unwrap_or(1) as u32
-                        - 1,
-                },
-                end: tower_lsp::lsp_types::Position {
-                    line: end_line_index as u32,
-                    character: files
-                        .column_number(&label.file, end_line_index, end)
-                        .unwrap_or(1) as u32
-                        - 1,
-                },
+                start: position(label.span.start),
+                end: position(label.span.end),
             };
             diags.push((
                 label.file().clone(),
-- 
2.43.0


From e42e8d65ed8bf3af04af74a3bffc70ca6a3e01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 102/124] fix: find the folder that a file is in

---
 hls/src/workspace.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hls/src/workspace.rs b/hls/src/workspace.rs
index 4506895..9d89795 100644
--- a/hls/src/workspace.rs
+++ b/hls/src/workspace.rs
@@ -59,22 +59,12 @@ impl EditorWorkspaces {
 
     pub fn guess_workspace(&self, uri: &Url) -> Option<EditorWorkspace> {
         let workspaces = self.workspaces.read().unwrap();
-        let mut best = None;
-        let mut best_len = 0;
-        for (folder, workspace) in workspaces.iter() {
-            let path = folder.path();
-            let uri_path = uri.path();
-            let len = path
-                .chars()
-                .zip(uri_path.chars())
-                .take_while(|(a, b)| a == b)
-                .count();
-            if len > best_len {
-                best = Some(workspace.clone());
-                best_len = len;
-            }
-        }
-        best
+        // the folder that holds the file, the innermost if there are several
+        workspaces
+            .iter()
+            .filter(|(folder, _)| within(folder, uri).is_some())
+            .max_by_key(|(folder, _)| folder.path().len())
+            .map(|(_, workspace)| workspace.clone())
     }
 
     pub async fn guess_workspace_retry(&self, uri: &Url) -> Option<EditorWorkspace> {
@@ -131,7 +121,9 @@ impl EditorWorkspace {
     }
 
     pub fn join_url(&self, url: &Url) -> Result<WorkspacePath, String> {
-        let path = url.path().strip_prefix(self.url.path()).unwrap();
+        let path =
+            within(&self.url, url).ok_or_else(|| format!("{} is not in {}", url, self.url))?;
+        let path = urlencoding::decode(path).map_err(|e| format!("{}", e))?;
         self.workspace.join(path).map_err(|e| format!("{}", e))
     }
 
@@ -156,3 +148,11 @@ impl EditorWorkspace {
         &self.url
     }
 }
+
+/// The path of a file inside of a folder
+fn within<'a>(folder: &Url, file: &'a Url) -> Option<&'a str> {
+    let path = file
+        .path()
+        .strip_prefix(folder.path().trim_end_matches('/'))?;
+    (path.is_empty() || path.starts_with('/')).then_some(path)
+}
-- 
2.43.0


From f7e2bd98beb79500398c64d7de60f24270060b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 103/124] fix: show editors what was read last, for each folder

---
 hls/src/config/mod.rs   | 40 +++++++++++++++++++++++++++++++---------
 hls/src/diag_manager.rs | 41 ++++++++++++++++++++++++-----------------
 hls/src/workspace.rs    |  9 ++++++---
 3 files changed, 61 insertions(+), 29 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index 03af32b..5364fc0 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -5,7 +5,7 @@ use std::{
 
 use hemtt_preprocessor::Processor;
 use hemtt_workspace::{reporting::WorkspaceFiles, WorkspacePath};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use tracing::{debug, info, warn};
 use url::Url;
 
@@ -32,12 +32,21 @@ impl ConfigCache {
     }
 }
 
+/// Held during a check, so that what was read last is shown last
+static CHECKING: Mutex<()> = Mutex::const_new(());
+
+/// What diagnostics of a workspace are kept under
+fn scope(workspace: &EditorWorkspace) -> String {
+    format!("config:{}:", workspace.url())
+}
+
 async fn check_addons(workspace: EditorWorkspace) {
     for config in workspace.root().addons() {
         let Ok(source) = workspace.root().join(config.as_str()) else {
             warn!("failed to join config {:?}", config);
             continue;
         };
+        let _checking = CHECKING.lock().await;
         check_addon(source, workspace.clone()).await;
     }
 }
@@ -47,7 +56,11 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
         warn!("failed to get diag manager");
         return;
     };
-    manager.clear_current(&format!("config:{}", source.as_str()));
+    if !EditorWorkspaces::get().contains(workspace.url()) {
+        return;
+    }
+    let scope = format!("{}{}", scope(&workspace), source.as_str());
+    manager.clear_current(&scope);
     let mut lsp_diags = HashMap::new();
     let sources = match Processor::run(&source) {
         Ok(processed) => {
@@ -108,13 +121,9 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
         }
     };
     for (file, diags) in lsp_diags {
-        manager.set_current(
-            &format!("config:{}", source.as_str()),
-            &workspace.to_url(&file),
-            diags,
-        );
+        manager.set_current(&scope, &workspace.to_url(&file), diags);
     }
-    manager.sync();
+    manager.sync().await;
     let cache = ConfigCache::get();
     if !sources.is_empty() {
         cache
@@ -131,11 +140,24 @@ pub async fn workspace_added(workspace: EditorWorkspace) {
     tokio::spawn(check_addons(workspace));
 }
 
+pub async fn workspace_removed(workspace: EditorWorkspace) {
+    let _checking = CHECKING.lock().await;
+    if EditorWorkspaces::get().contains(workspace.url()) {
+        // it is back already
+        return;
+    }
+    if let Some(manager) = DiagManager::get() {
+        manager.clear_scopes(&scope(&workspace));
+        manager.sync().await;
+    }
+}
+
 pub async fn did_save(url: Url) {
     let Some(workspace) = EditorWorkspaces::get().guess_workspace_retry(&url).await else {
         warn!("Failed to find workspace for {:?}", url);
         return;
     };
+    let _checking = CHECKING.lock().await;
     let recheck_addons = {
         let cache = ConfigCache::get();
         let files = cache.files.read().await;
@@ -157,6 +179,6 @@ pub async fn did_save(url: Url) {
             .collect::<Vec<_>>()
     };
     for path in recheck_addons {
-        tokio::spawn(check_addon(path.clone(), workspace.clone()));
+        check_addon(path, workspace.clone()).await;
     }
 }
diff --git a/hls/src/diag_manager.rs b/hls/src/diag_manager.rs
index 671ae70..cb459eb 100644
--- a/hls/src/diag_manager.rs
+++ b/hls/src/diag_manager.rs
@@ -60,8 +60,13 @@ impl DiagManager {
         self.worker.clear_current(scope);
     }
 
-    pub fn sync(&self) {
-        self.worker.sync();
+    /// Clear everything that is kept under a scope with this start
+    pub fn clear_scopes(&self, prefix: &str) {
+        self.worker.clear_scopes(prefix);
+    }
+
+    pub async fn sync(&self) {
+        self.worker.sync().await;
     }
 }
 
@@ -87,7 +92,11 @@ impl DiagWorker {
         self.current.retain(|k, _| k.0 != scope);
     }
 
-    pub fn sync(&self) {
+    pub fn clear_scopes(&self, prefix: &str) {
+        self.current.retain(|k, _| !k.0.starts_with(prefix));
+    }
+
+    pub async fn sync(&self) {
         let mut touched = HashSet::new();
         let diags = self
             .current
@@ -105,19 +114,17 @@ impl DiagWorker {
         let client = self.client.clone();
         let last_touched = self.last_touched.lock().unwrap().clone();
         *self.last_touched.lock().unwrap() = touched;
-        tokio::spawn(async move {
-            // clear files with previous diagnostics
-            for url in last_touched {
-                debug!("clearing diagnostics for {:?}", url);
-                client
-                    .publish_diagnostics(url.clone(), Vec::new(), None)
-                    .await;
-            }
-            // publish new diagnostics
-            for (url, diags) in diags_by_file {
-                debug!("publishing diagnostics for {:?}", url);
-                client.publish_diagnostics(url, diags, None).await;
-            }
-        });
+        // clear files with previous diagnostics
+        for url in last_touched {
+            debug!("clearing diagnostics for {:?}", url);
+            client
+                .publish_diagnostics(url.clone(), Vec::new(), None)
+                .await;
+        }
+        // publish new diagnostics
+        for (url, diags) in diags_by_file {
+            debug!("publishing diagnostics for {:?}", url);
+            client.publish_diagnostics(url, diags, None).await;
+        }
     }
 }
diff --git a/hls/src/workspace.rs b/hls/src/workspace.rs
index 9d89795..46e21de 100644
--- a/hls/src/workspace.rs
+++ b/hls/src/workspace.rs
@@ -39,8 +39,8 @@ impl EditorWorkspaces {
     pub fn changed(&self, changes: DidChangeWorkspaceFoldersParams) {
         let mut workspaces = self.workspaces.write().unwrap();
         for removed in changes.event.removed {
-            if workspaces.contains_key(&removed.uri) {
-                workspaces.remove(&removed.uri);
+            if let Some(workspace) = workspaces.remove(&removed.uri) {
+                tokio::spawn(crate::config::workspace_removed(workspace));
             }
         }
         for added in changes.event.added {
@@ -57,6 +57,10 @@ impl EditorWorkspaces {
         }
     }
 
+    pub fn contains(&self, url: &Url) -> bool {
+        self.workspaces.read().unwrap().contains_key(url)
+    }
+
     pub fn guess_workspace(&self, uri: &Url) -> Option<EditorWorkspace> {
         let workspaces = self.workspaces.read().unwrap();
         // the folder that holds the file, the innermost if there are several
@@ -143,7 +147,6 @@ impl EditorWorkspace {
         &self.workspace
     }
 
-    #[allow(dead_code)]
     pub fn url(&self) -> &Url {
         &self.url
     }
-- 
2.43.0


From cbab82515b7f8e5bf86c2cff76005d0c2e169ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:40 +0000
Subject: [PATCH 104/124] fix: look at configs again that could not be read
 before

---
 hls/src/config/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index 5364fc0..c8321c1 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -105,7 +105,7 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
             }
             processed.sources().into_iter().map(|(p, _)| p).collect()
         }
-        Err((err_sources, err)) => {
+        Err((mut err_sources, err)) => {
             warn!("failed to parse config: {:?}", err);
             debug!("failed sources: {:?}", err_sources);
             if let hemtt_preprocessor::Error::Code(code) = err {
@@ -117,6 +117,8 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
                     }
                 };
             }
+            // the config itself is not among them
+            err_sources.push(source.clone());
             err_sources
         }
     };
@@ -125,15 +127,11 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
     }
     manager.sync().await;
     let cache = ConfigCache::get();
-    if !sources.is_empty() {
-        cache
-            .files
-            .write()
-            .await
-            .insert(source.clone(), CacheBundle { sources });
-    } else {
-        cache.files.write().await.remove(&source);
-    }
+    cache
+        .files
+        .write()
+        .await
+        .insert(source.clone(), CacheBundle { sources });
 }
 
 pub async fn workspace_added(workspace: EditorWorkspace) {
-- 
2.43.0


From 36078cfecb29ee77f27a622f9831b8aa11aa28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 105/124] fix: look at configs again when a header without
 output changes

---
 hls/src/config/mod.rs                         |  4 +++-
 libs/preprocessor/src/processor/directives.rs |  4 ++--
 libs/preprocessor/src/processor/mod.rs        |  8 +++++---
 libs/workspace/src/reporting/processed.rs     | 16 ++++++++++++++++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index c8321c1..578903d 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -103,7 +103,9 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
                     }
                 }
             }
-            processed.sources().into_iter().map(|(p, _)| p).collect()
+            let mut sources = processed.included().to_vec();
+            sources.push(source.clone());
+            sources
         }
         Err((mut err_sources, err)) => {
             warn!("failed to parse config: {:?}", err);
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 67ac250..f594008 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -232,9 +232,9 @@ impl Processor {
             }
             found_path
         };
+        self.included_files.push(path.clone());
         let tokens = crate::parse::parse(&path)?;
-        self.file_stack.push(path.clone());
-        self.included_files.push(path);
+        self.file_stack.push(path);
         let mut stream = tokens.into_iter().peekmore();
         let before = buffer.len();
         let ret = self.file(&mut pragma.child(), &mut stream, buffer);
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 3237cf5..1f38abf 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -94,15 +94,17 @@ impl Processor {
                 .push(Arc::new(InvalidConfigCase::new(path.clone())));
         }
 
-        Processed::new(
+        match Processed::new(
             buffer,
             processor.macros,
             #[cfg(feature = "lsp")]
             processor.usage,
             processor.warnings,
             processor.no_rapify,
-        )
-        .map_err(|e| (processor.included_files, e.into()))
+        ) {
+            Ok(processed) => Ok(processed.with_included(processor.included_files)),
+            Err(e) => Err((processor.included_files, e.into())),
+        }
     }
 
     fn file(
diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 04de7db..0949388 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -28,6 +28,9 @@ pub struct Processed {
 
     macros: HashMap<String, Vec<Position>>,
 
+    /// Files that were included, also those without any output
+    included: Vec<WorkspacePath>,
+
     #[allow(dead_code)]
     #[cfg(feature = "lsp")]
     /// Map of token definition to usage
@@ -197,6 +200,19 @@ impl Processed {
         Ok(processed)
     }
 
+    #[must_use]
+    /// Remember the files that were included
+    pub fn with_included(mut self, included: Vec<WorkspacePath>) -> Self {
+        self.included = included;
+        self
+    }
+
+    #[must_use]
+    /// Get the files that were included, also those without any output
+    pub fn included(&self) -> &[WorkspacePath] {
+        &self.included
+    }
+
     #[must_use]
     /// Get the output suitable for further processing
     /// Ignores certain tokens
-- 
2.43.0


From fbe7aa54cc8107ef30bb5a6b9c85395b1beff281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 106/124] fix: find the command that is under the cursor

Positions of commands were only looked for in the outermost statements, the end
of a span was mapped to the token behind it, places in included files were taken
for places in the script, and positions were not counted in UTF-16 code units.
---
 hls/src/sqf/hover.rs  |   6 +-
 hls/src/sqf/locate.rs | 171 +++++++++++++++++++++---------------------
 2 files changed, 87 insertions(+), 90 deletions(-)

diff --git a/hls/src/sqf/hover.rs b/hls/src/sqf/hover.rs
index 880add1..e9cb986 100644
--- a/hls/src/sqf/hover.rs
+++ b/hls/src/sqf/hover.rs
@@ -5,7 +5,7 @@ use tower_lsp::lsp_types::{Hover, HoverContents, MarkedString, Position};
 use tracing::debug;
 use url::Url;
 
-use super::{locate::Locate, SqfCache};
+use super::SqfCache;
 
 const WIKI: &str = "https://community.bistudio.com/wiki/";
 
@@ -13,9 +13,7 @@ impl SqfCache {
     pub fn hover(&self, uri: Url, position: Position) -> Option<Hover> {
         let files = self.files.read().unwrap();
         if let Some(cache_bundle) = files.get(&uri) {
-            if let Some(expression) =
-                (&cache_bundle.processed, &cache_bundle.statements).locate_expression(uri, position)
-            {
+            if let Some(expression) = cache_bundle.locate_expression(position) {
                 match expression {
                     hemtt_sqf::Expression::NularCommand(command, _) => {
                         return Some(hover(command.as_str(), &cache_bundle.database))
diff --git a/hls/src/sqf/locate.rs b/hls/src/sqf/locate.rs
index 7ed0cb5..ed2506e 100644
--- a/hls/src/sqf/locate.rs
+++ b/hls/src/sqf/locate.rs
@@ -1,106 +1,105 @@
+use std::ops::Range;
+
 use hemtt_sqf::{Expression, Statement, Statements};
-use hemtt_workspace::reporting::Processed;
+use hemtt_workspace::{reporting::Processed, WorkspacePath};
 use tower_lsp::lsp_types::Position;
-use url::Url;
 
-use super::SqfCache;
+use super::CacheBundle;
 
-pub trait Locate {
-    fn locate_expression(&self, uri: Url, position: Position) -> Option<Expression>;
+impl CacheBundle {
+    pub fn locate_expression(&self, position: Position) -> Option<Expression> {
+        let offset = source_offset(&self.processed, &self.source, position)?;
+        locate_statements(&self.processed, &self.source, &self.statements, offset)
+    }
 }
 
-impl Locate for (&Processed, &Statements) {
-    fn locate_expression(&self, uri: Url, position: Position) -> Option<Expression> {
-        SqfCache::get()
-            .files
-            .read()
-            .unwrap()
-            .get(&uri)
-            .map(|cache_bundle| {
-                let offset = cache_bundle
-                    .processed
-                    .line_offset(&cache_bundle.source, position.line as usize)
-                    .unwrap_or_default()
-                    + position.character as usize;
-                for statement in cache_bundle.statements.content().iter() {
-                    match statement {
-                        Statement::AssignGlobal(_, expression, _)
-                        | Statement::AssignLocal(_, expression, _)
-                        | Statement::Expression(expression, _) => {
-                            if let Some(exp) = locate_expression(self.0, expression, offset) {
-                                return Some(exp);
-                            }
-                        }
-                    }
-                }
-                None
-            })?
-    }
+/// The offset, in bytes, of a position in a source file
+///
+/// The position counts UTF-16 code units
+fn source_offset(
+    processed: &Processed,
+    source: &WorkspacePath,
+    position: Position,
+) -> Option<usize> {
+    let sources = processed.sources();
+    let (_, content) = sources.iter().find(|(path, _)| path == source)?;
+    let mut lines = content.split_inclusive('\n');
+    let before: usize = lines
+        .by_ref()
+        .take(position.line as usize)
+        .map(str::len)
+        .sum();
+    let mut units = 0;
+    let inside = lines
+        .next()?
+        .chars()
+        .take_while(|c| {
+            units += c.len_utf16();
+            units <= position.character as usize
+        })
+        .map(char::len_utf8)
+        .sum::<usize>();
+    Some(before + inside)
+}
+
+fn locate_statements(
+    processed: &Processed,
+    source: &WorkspacePath,
+    statements: &Statements,
+    offset: usize,
+) -> Option<Expression> {
+    statements.content().iter().find_map(|statement| {
+        let (Statement::AssignGlobal(_, expression, _)
+        | Statement::AssignLocal(_, expression, _)
+        | Statement::Expression(expression, _)) = statement;
+        locate_expression(processed, source, expression, offset)
+    })
 }
 
 fn locate_expression(
     processed: &Processed,
+    source: &WorkspacePath,
     expression: &Expression,
     offset: usize,
 ) -> Option<Expression> {
-    let start_map = processed.mapping(expression.full_span().start)?;
-    let end_map = processed.mapping(expression.full_span().end)?;
-    if start_map.original_start() >= offset || end_map.original_end() <= offset {
-        return None;
-    }
-    match expression {
+    let inner = match expression {
         Expression::Code(statements) => {
-            for statement in statements.content().iter() {
-                match statement {
-                    Statement::AssignGlobal(_, expression, _)
-                    | Statement::AssignLocal(_, expression, _)
-                    | Statement::Expression(expression, _) => {
-                        if let Some(exp) = locate_expression(processed, expression, offset) {
-                            return Some(exp);
-                        }
-                    }
-                }
-            }
-            None
+            return locate_statements(processed, source, statements, offset);
         }
-        Expression::String(_, span, _)
-        | Expression::Number(_, span)
-        | Expression::Variable(_, span)
-        | Expression::Boolean(_, span) => {
-            let map = processed.mapping(span.start)?;
-            if map.original_start() <= offset && map.original_end() > offset {
-                Some(expression.clone())
-            } else {
-                None
-            }
+        Expression::Array(expressions, _) | Expression::ConsumeableArray(expressions, _) => {
+            return expressions
+                .iter()
+                .find_map(|expression| locate_expression(processed, source, expression, offset));
         }
-        Expression::Array(experssions, _) | Expression::ConsumeableArray(experssions, _) => {
-            for expression in experssions.iter() {
-                if let Some(exp) = locate_expression(processed, expression, offset) {
-                    return Some(exp);
-                }
-            }
-            None
-        }
-        Expression::NularCommand(_, _) => Some(expression.clone()),
-        Expression::UnaryCommand(_, lhs, _) => {
-            let start_map = processed.mapping(lhs.full_span().start)?;
-            let end_map = processed.mapping(lhs.full_span().end)?;
-            if start_map.original_start() <= offset && end_map.original_end() > offset {
-                locate_expression(processed, lhs, offset)
-            } else {
-                Some(expression.clone())
-            }
+        Expression::UnaryCommand(_, child, _) => {
+            locate_expression(processed, source, child, offset)
         }
         Expression::BinaryCommand(_, lhs, rhs, _) => {
-            for hs in [lhs, rhs].iter() {
-                let start_map = processed.mapping(hs.full_span().start)?;
-                let end_map = processed.mapping(hs.full_span().end)?;
-                if start_map.original_start() <= offset && end_map.original_end() > offset {
-                    return locate_expression(processed, hs, offset);
-                }
-            }
-            Some(expression.clone())
+            locate_expression(processed, source, lhs, offset)
+                .or_else(|| locate_expression(processed, source, rhs, offset))
         }
-    }
+        _ => None,
+    };
+    inner.or_else(|| {
+        covers(processed, source, &expression.full_span(), offset).then(|| expression.clone())
+    })
+}
+
+/// Is a place in a source file part of a span of the processed output
+fn covers(
+    processed: &Processed,
+    source: &WorkspacePath,
+    span: &Range<usize>,
+    offset: usize,
+) -> bool {
+    let (Some(first), Some(last)) = (
+        processed.mapping(span.start),
+        processed.mapping(span.end.saturating_sub(1)),
+    ) else {
+        return false;
+    };
+    first.original().path() == source
+        && last.original().path() == source
+        && first.original_start() <= offset
+        && last.original_end() > offset
 }
-- 
2.43.0


From efd3cd110dbf263690432dff47a301ff98bdc335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 107/124] fix: quote what is written to the project file of a
 new project

---
 bin/src/commands/new/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bin/src/commands/new/mod.rs b/bin/src/commands/new/mod.rs
index ff6f1c6..71cd802 100644
--- a/bin/src/commands/new/mod.rs
+++ b/bin/src/commands/new/mod.rs
@@ -110,8 +110,14 @@ pub fn execute(cmd: &Command, in_test: bool) -> Result<Report, Error> {
     create_dir(&hemtt_path)?;
     let mut file = std::fs::File::create(hemtt_path.join("project.toml"))?;
     file.write_all(
-        format!("name = \"{full_name}\"\nauthor = \"{author}\"\nprefix = \"{prefix}\"\nmainprefix = \"{mainprefix}\"\n")
-            .as_bytes(),
+        format!(
+            "name = {}\nauthor = {}\nprefix = {}\nmainprefix = {}\n",
+            toml_string(&full_name),
+            toml_string(&author),
+            toml_string(&prefix),
+            toml_string(&mainprefix),
+        )
+        .as_bytes(),
     )?;
 
     // Create .gitignore
@@ -126,3 +132,8 @@ pub fn execute(cmd: &Command, in_test: bool) -> Result<Report, Error> {
 
     Ok(report)
 }
+
+/// Quote a string for TOML, whose basic strings have the escapes of JSON
+fn toml_string(value: &str) -> String {
+    serde_json::Value::from(value).to_string()
+}
-- 
2.43.0


From f031dc31e1746dbc90d867d5369eb64d061de13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 108/124] fix: fill in the year and the author of licenses

---
 bin/src/modules/new/license.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/new/license.rs b/bin/src/modules/new/license.rs
index 571e723..093ce79 100644
--- a/bin/src/modules/new/license.rs
+++ b/bin/src/modules/new/license.rs
@@ -39,9 +39,13 @@ impl Licenses {
             _ => unreachable!(),
         };
 
-        Some(license.replace("{author}", author).replace(
-            "{year}",
-            time::OffsetDateTime::now_utc().year().to_string().as_str(),
-        ))
+        Some(
+            license
+                .replace(
+                    "{YEAR}",
+                    time::OffsetDateTime::now_utc().year().to_string().as_str(),
+                )
+                .replace("{AUTHOR}", author),
+        )
     }
 }
-- 
2.43.0


From 80df7f88d50f708ce7b1c797dd765085e6c6c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 109/124] fix: read strings that are not UTF-8 instead of
 dropping them

---
 libs/common/src/io.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index c9809ae..e973e2b 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -19,6 +19,11 @@ pub trait ReadExt: Read {
     /// # Errors
     /// If the input fails to read.
     fn read_cstring(&mut self) -> io::Result<String>;
+    /// Reads the bytes of a C-style null-terminated string from the input.
+    ///
+    /// # Errors
+    /// If the input fails to read.
+    fn read_cstring_bytes(&mut self) -> io::Result<Vec<u8>>;
     /// Reads a compressed `u32` from the input.
     ///
     /// # Errors
@@ -28,6 +33,10 @@ pub trait ReadExt: Read {
 
 impl<T: Read> ReadExt for T {
     fn read_cstring(&mut self) -> io::Result<String> {
+        Ok(decode_string(&self.read_cstring_bytes()?))
+    }
+
+    fn read_cstring_bytes(&mut self) -> io::Result<Vec<u8>> {
         let mut bytes: Vec<u8> = Vec::new();
         for byte in self.bytes() {
             let b = byte?;
@@ -36,14 +45,7 @@ impl<T: Read> ReadExt for T {
             }
             bytes.push(b);
         }
-
-        String::from_utf8(bytes).map_or_else(
-            |_| {
-                trace!("Failed to convert bytes to string");
-                Ok(String::new())
-            },
-            Ok,
-        )
+        Ok(bytes)
     }
 
     fn read_compressed_int(&mut self) -> io::Result<u32> {
@@ -103,6 +105,18 @@ impl<T: Write> WriteExt for T {
     }
 }
 
+#[must_use]
+/// Decodes a string, bytes that are not UTF-8 are from a legacy encoding and read as Latin-1.
+pub fn decode_string(bytes: &[u8]) -> String {
+    std::str::from_utf8(bytes).map_or_else(
+        |_| {
+            trace!("Failed to convert bytes to string, reading as Latin-1");
+            bytes.iter().copied().map(char::from).collect()
+        },
+        ToString::to_string,
+    )
+}
+
 #[must_use]
 /// Returns the length of a compressed `u32`.
 pub const fn compressed_int_len(x: u32) -> usize {
-- 
2.43.0


From 3908cf8b26165525193f0eafbcc9a51c1006c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:58 +0000
Subject: [PATCH 110/124] fix: hash the stored names, properties and data of
 PBOs, not what lookups by name find

---
 libs/pbo/src/model/header.rs |  20 +++++--
 libs/pbo/src/read.rs         | 110 ++++++++++++++++++++++-------------
 libs/signing/src/lib.rs      |  12 ++--
 3 files changed, 92 insertions(+), 50 deletions(-)

diff --git a/libs/pbo/src/model/header.rs b/libs/pbo/src/model/header.rs
index 98ada5a..2c811f2 100644
--- a/libs/pbo/src/model/header.rs
+++ b/libs/pbo/src/model/header.rs
@@ -1,5 +1,5 @@
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
-use hemtt_common::io::ReadExt;
+use hemtt_common::io::{decode_string, ReadExt, WriteExt as _};
 
 use crate::{ReadPbo, WritePbo};
 
@@ -9,6 +9,8 @@ use super::mime::Mime;
 /// A PBO file header
 pub struct Header {
     filename: String,
+    /// The name as it is stored, when that is not UTF-8
+    stored: Option<Vec<u8>>,
     mime: Mime,
     original: u32,
     reserved: u32,
@@ -44,6 +46,13 @@ impl Header {
         &self.filename
     }
 
+    /// Get the bytes of the filename, as stored in the PBO
+    pub(crate) fn filename_bytes(&self) -> &[u8] {
+        self.stored
+            .as_deref()
+            .unwrap_or_else(|| self.filename.as_bytes())
+    }
+
     #[must_use]
     /// Get the mime type
     pub const fn mime(&self) -> &Mime {
@@ -80,8 +89,7 @@ impl Header {
 
 impl WritePbo for Header {
     fn write_pbo<O: std::io::Write>(&self, output: &mut O) -> Result<(), crate::error::Error> {
-        output.write_all(self.filename.as_bytes())?;
-        output.write_all(&[0])?;
+        output.write_cstring(self.filename_bytes())?;
         output.write_u32::<LittleEndian>(self.mime.as_u32())?;
         output.write_u32::<LittleEndian>(self.original)?;
         output.write_u32::<LittleEndian>(self.reserved)?;
@@ -94,11 +102,13 @@ impl WritePbo for Header {
 impl ReadPbo for Header {
     fn read_pbo<I: std::io::Read>(input: &mut I) -> Result<(Self, usize), crate::error::Error> {
         let mut size = 4 * 5;
-        let filename = input.read_cstring()?;
-        size += filename.len() + 1;
+        let stored = input.read_cstring_bytes()?;
+        size += stored.len() + 1;
+        let filename = decode_string(&stored);
         let mime = input.read_u32::<LittleEndian>()?;
         Ok((
             Self {
+                stored: (filename.as_bytes() != stored).then_some(stored),
                 filename,
                 mime: Mime::from_u32(mime).ok_or(crate::error::Error::UnsupportedMime(mime))?,
                 original: input.read_u32::<LittleEndian>()?,
diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index aed58cf..d183414 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -1,7 +1,7 @@
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 
 use byteorder::ReadBytesExt;
-use hemtt_common::io::{ReadExt, WriteExt};
+use hemtt_common::io::{decode_string, ReadExt, WriteExt};
 use indexmap::IndexMap;
 use sha1::{Digest, Sha1};
 
@@ -17,10 +17,13 @@ fn normalized(name: &str) -> String {
     name.replace('/', "\\").to_lowercase()
 }
 
+/// A header for properties, with the bytes of its properties
+type VersHeader = (Header, Vec<(Vec<u8>, Vec<u8>)>);
+
 /// An existing PBO file that can be read from
 pub struct ReadablePbo<I: Seek + Read> {
     properties: IndexMap<String, String>,
-    vers_header: Option<Header>,
+    vers_headers: Vec<VersHeader>,
     headers: Vec<Header>,
     checksum: Checksum,
     input: I,
@@ -35,19 +38,21 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn from(mut input: I) -> Result<Self, Error> {
         let mut properties = IndexMap::new();
         let mut headers = Vec::new();
-        let mut vers_header = None;
+        let mut vers_headers = Vec::new();
         loop {
             let (header, _) = Header::read_pbo(&mut input)?;
             if header.mime() == &Mime::Vers {
-                vers_header = Some(header);
+                let mut stored = Vec::new();
                 loop {
-                    let key = input.read_cstring()?;
+                    let key = input.read_cstring_bytes()?;
                     if key.is_empty() {
                         break;
                     }
-                    let value = input.read_cstring()?;
-                    properties.insert(key, value);
+                    let value = input.read_cstring_bytes()?;
+                    properties.insert(decode_string(&key), decode_string(&value));
+                    stored.push((key, value));
                 }
+                vers_headers.push((header, stored));
             } else if header.filename().is_empty() {
                 break;
             } else {
@@ -69,7 +74,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
         }
         Ok(Self {
             properties,
-            vers_header,
+            vers_headers,
             headers,
             checksum,
             input,
@@ -89,6 +94,15 @@ impl<I: Seek + Read> ReadablePbo<I> {
         &self.properties
     }
 
+    /// Get the bytes of a property, as stored in the PBO
+    pub fn property_bytes(&self, key: &str) -> Option<&[u8]> {
+        self.vers_headers
+            .iter()
+            .flat_map(|(_, stored)| stored)
+            .rfind(|(k, _)| k == key.as_bytes())
+            .map(|(_, value)| value.as_slice())
+    }
+
     /// Get the PBO's stored checksum
     pub const fn checksum(&self) -> &Checksum {
         &self.checksum
@@ -101,8 +115,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
     /// Get the PBO's headers sorted by name
     pub fn files_sorted(&self) -> Vec<Header> {
-        let mut sorted = self.files();
-        sorted.sort_by(|a, b| {
+        self.sorted().into_iter().map(|(h, _)| h).collect()
+    }
+
+    /// The headers sorted by name, with the offset of their data
+    fn sorted(&self) -> Vec<(Header, u64)> {
+        let mut offset = self.blob_start;
+        let mut sorted: Vec<(Header, u64)> = self
+            .headers
+            .iter()
+            .map(|header| {
+                let start = offset;
+                offset += u64::from(header.size());
+                (header.clone(), start)
+            })
+            .collect();
+        sorted.sort_by(|(a, _), (b, _)| {
             a.filename()
                 .to_lowercase()
                 .cmp(&b.filename().to_lowercase())
@@ -110,6 +138,12 @@ impl<I: Seek + Read> ReadablePbo<I> {
         sorted
     }
 
+    /// The data of an entry, names do not have to be unique
+    fn data(&mut self, header: &Header, offset: u64) -> Result<File<'_, I>, Error> {
+        self.input.seek(SeekFrom::Start(offset))?;
+        Ok(File::new(header, &mut self.input))
+    }
+
     /// Read a file from the PBO
     ///
     /// # Errors
@@ -181,26 +215,21 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// if a file does not exist, but a header for it does
     pub fn gen_checksum(&mut self) -> Result<Checksum, Error> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        if let Some(vers_header) = &self.vers_header {
+        for (vers_header, stored) in &self.vers_headers {
             vers_header.write_pbo(&mut headers)?;
 
-            if let Some(prefix) = self.properties.get("prefix") {
-                headers.write_cstring(b"prefix")?;
-                headers.write_cstring(prefix)?;
-            }
-
-            for (key, value) in &self.properties {
-                if key == "prefix" {
-                    continue;
-                }
-                headers.write_cstring(key.as_bytes())?;
-                headers.write_cstring(value.as_bytes())?;
+            let (prefix, other): (Vec<_>, Vec<_>) =
+                stored.iter().partition(|(key, _)| key == b"prefix");
+            for (key, value) in prefix.into_iter().chain(other) {
+                headers.write_cstring(key)?;
+                headers.write_cstring(value)?;
             }
 
             headers.write_all(&[0])?;
         }
 
-        for header in &self.files_sorted() {
+        let sorted = self.sorted();
+        for (header, _) in &sorted {
             header.write_pbo(&mut headers)?;
         }
 
@@ -210,11 +239,8 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
         hasher.update(headers.get_ref());
 
-        for header in &self.files_sorted() {
-            let mut file = self
-                .file(header.filename())?
-                .expect("file with header should exist");
-            std::io::copy(&mut file, &mut hasher)?;
+        for (header, offset) in &sorted {
+            std::io::copy(&mut self.data(header, *offset)?, &mut hasher)?;
         }
 
         Ok(hasher.finalize().to_vec().into())
@@ -232,15 +258,24 @@ impl<I: Seek + Read> ReadablePbo<I> {
             return Err(Error::NoFiles);
         }
 
-        for header in &self.files_sorted() {
+        for (header, offset) in &self.sorted() {
             // Skip empty files
-            let Some(mut file) = self.file(header.filename())? else {
-                continue;
-            };
-            if file.read_u8().is_err() {
+            if self.data(header, *offset)?.read_u8().is_err() {
                 continue;
             }
-            hasher.update(header.filename().replace('/', "\\").to_lowercase());
+            let name = header.filename_bytes();
+            if name == header.filename().as_bytes() {
+                hasher.update(normalized(header.filename()));
+            } else {
+                let lower: Vec<u8> = name
+                    .iter()
+                    .map(|b| match b {
+                        b'/' => b'\\',
+                        b => b.to_ascii_lowercase(),
+                    })
+                    .collect();
+                hasher.update(lower);
+            }
         }
 
         Ok(hasher.finalize().to_vec().into())
@@ -255,15 +290,12 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
         let mut nothing = true;
 
-        for header in &self.files_sorted() {
+        for (header, offset) in &self.sorted() {
             if !version.should_hash_file(header.filename()) {
                 continue;
             }
             nothing = false;
-            let Some(mut file) = self.file(header.filename())? else {
-                continue;
-            };
-            std::io::copy(&mut file, &mut hasher)?;
+            std::io::copy(&mut self.data(header, *offset)?, &mut hasher)?;
         }
 
         if nothing {
diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index c8cb967..944e334 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -66,9 +66,9 @@ pub fn generate_hashes<I: Seek + Read>(
 
     hasher.update(hash1.as_bytes());
     hasher.update(pbo.hash_filenames()?);
-    if let Some(prefix) = pbo.properties().get("prefix") {
-        hasher.update(prefix.as_bytes());
-        if !prefix.ends_with('\\') {
+    if let Some(prefix) = pbo.property_bytes("prefix") {
+        hasher.update(prefix);
+        if !prefix.ends_with(b"\\") {
             hasher.update(b"\\");
         }
     }
@@ -77,9 +77,9 @@ pub fn generate_hashes<I: Seek + Read>(
     let mut hasher = Sha1::new();
     hasher.update(pbo.hash_files(version)?);
     hasher.update(pbo.hash_filenames()?);
-    if let Some(prefix) = pbo.properties().get("prefix") {
-        hasher.update(prefix.as_bytes());
-        if !prefix.ends_with('\\') {
+    if let Some(prefix) = pbo.property_bytes("prefix") {
+        hasher.update(prefix);
+        if !prefix.ends_with(b"\\") {
             hasher.update(b"\\");
         }
     }
-- 
2.43.0


From bfa5c37374a0bf71c093de3de8ac193fb181c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:58 +0000
Subject: [PATCH 111/124] fix: reject private keys that can't sign

---
 libs/signing/src/private.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/signing/src/private.rs b/libs/signing/src/private.rs
index 40231d6..ed77071 100644
--- a/libs/signing/src/private.rs
+++ b/libs/signing/src/private.rs
@@ -85,7 +85,8 @@ impl BIPrivateKey {
         input.read_u32::<LittleEndian>()?;
         let length = input.read_u32::<LittleEndian>()?;
 
-        if temp != length / 16 * 9 + 20 {
+        // a shorter key can't hold a padded hash
+        if temp != length / 16 * 9 + 20 || length / 8 < 38 {
             return Err(Error::InvalidLength);
         }
 
@@ -100,6 +101,9 @@ impl BIPrivateKey {
             input.read_exact(&mut buffer)?;
             BigUint::from_bytes_le(&buffer)
         };
+        if n == BigUint::default() {
+            return Err(Error::InvalidLength);
+        }
 
         let p = {
             let mut buffer = vec![0; (length / 16) as usize];
-- 
2.43.0


From 2315bd6dc1c9c0e534410e95dc8a587be491632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:58 +0000
Subject: [PATCH 112/124] fix: keep the order of the other properties when one
 is removed

---
 libs/pbo/src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index 51763b5..375d650 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -108,7 +108,7 @@ impl<I: Seek + Read> WritablePbo<I> {
 
     /// Remove an property from the PBO
     pub fn remove_property(&mut self, key: &str) -> Option<String> {
-        self.properties.swap_remove(key)
+        self.properties.shift_remove(key)
     }
 
     #[must_use]
-- 
2.43.0


From 3e895149e78071127d42a7aead96e92376ae4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:05 +0000
Subject: [PATCH 113/124] fix: don't crash on the image of a texture without a
 size

---
 libs/paa/src/mipmap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index ceb500b..1846ec6 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -89,6 +89,10 @@ impl MipMap {
     /// # Panics
     /// Panics if the `MipMap` is invalid
     pub fn get_image(&self) -> image::DynamicImage {
+        if self.width() == 0 || self.height == 0 {
+            // there is nothing to decode
+            return image::DynamicImage::new_rgba8(u32::from(self.width()), u32::from(self.height));
+        }
         let data = &*self.data;
         let mut width_2 = self.width;
         let compress = if width_2 % 32768 == width_2 {
-- 
2.43.0


From 3331e53619a156009b13fe1b92e16bee4ab5869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:35 +0000
Subject: [PATCH 114/124] fix: read version macros with tabs or block comments

---
 libs/common/src/version.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/libs/common/src/version.rs b/libs/common/src/version.rs
index 6c2e87b..45af6e7 100644
--- a/libs/common/src/version.rs
+++ b/libs/common/src/version.rs
@@ -94,28 +94,21 @@ impl Version {
             "BUILD" => Error::ExpectedBuild,
             _ => unreachable!(),
         };
-        let line = lines
-            .iter()
-            .find(|line| {
-                // other macros may have the component as part of their name
-                line.strip_prefix("#define ")
-                    .and_then(|define| define.split_whitespace().next())
-                    .is_some_and(|name| name == component)
-            })
-            .or_else(|| {
-                lines
-                    .iter()
-                    .find(|line| line.starts_with(&format!("#define {component}")))
-            })
+        // the name and value of each macro, without comments
+        let mut defines = lines.iter().filter_map(|line| {
+            let define = line.strip_prefix("#define")?;
+            let define = define.split("//").next()?.split("/*").next()?;
+            define
+                .starts_with(char::is_whitespace)
+                .then(|| define.trim())
+        });
+        let define = defines
+            .clone()
+            // other macros may have the component as part of their name
+            .find(|define| define.split_whitespace().next() == Some(component))
+            .or_else(|| defines.find(|define| define.starts_with(component)))
             .ok_or_else(|| error.clone())?;
-        // remove comment
-        let component = line
-            .split_once("//")
-            .unwrap_or((line, ""))
-            .0
-            .trim()
-            .rsplit_once(' ')
-            .ok_or(error)?;
+        let component = define.rsplit_once(char::is_whitespace).ok_or(error)?;
         component
             .1
             .parse::<u32>()
-- 
2.43.0


From aaf29c31cdd57ab82ede0d24967e7fa58b57d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:10 +0000
Subject: [PATCH 115/124] fix: don't crash on incomplete or damaged models

---
 bin/src/modules/binarize/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index 8b07343..2ff052a 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -199,11 +199,15 @@ impl Module for Binarize {
 
                     // skip OLOD & BMTR files as they are already binarized
                     let mut buf = [0; 4];
-                    entry
+                    if entry
                         .open_file()
                         .expect("file should exist if it came from walk_dir")
                         .read_exact(&mut buf)
-                        .expect("p3ds should be at least 4 bytes");
+                        .is_err()
+                    {
+                        warn!("skipping binarization of incomplete {}", entry.as_str());
+                        continue;
+                    }
                     if check_signature(buf) {
                         debug!(
                             "skipping binarization of already binarized {}",
@@ -218,7 +222,12 @@ impl Module for Binarize {
                         let p3d = hemtt_p3d::P3D::read(
                             &mut entry.open_file().expect("file should exist from walk_dir"),
                         )
-                        .expect("p3d should be able to be read if it is a valid p3d file");
+                        .map_err(|e| {
+                            std::io::Error::new(
+                                std::io::ErrorKind::InvalidData,
+                                format!("{} is not a valid model: {e}", entry.as_str()),
+                            )
+                        })?;
                         let (missing_textures, missing_materials) =
                             p3d.missing(ctx.workspace_path(), &search_cache)?;
                         if !missing_textures.is_empty() {
-- 
2.43.0


From 146f958cfc458c654de7273994c010fe4c352706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:52 +0000
Subject: [PATCH 116/124] fix: binarize projects that only have optionals

---
 bin/src/modules/binarize/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index 2ff052a..e0c2b5c 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -406,8 +406,14 @@ fn setup_tmp(ctx: &Context) -> Result<(), Error> {
     }
     // maybe replace with config or rhai in the future?
     let addons = ctx.project_folder().join("addons");
-    for file in std::fs::read_dir(addons)? {
-        let file = file?.path();
+    // there may only be optionals
+    let files = if addons.exists() {
+        std::fs::read_dir(addons)?.collect::<std::io::Result<Vec<_>>>()?
+    } else {
+        Vec::new()
+    };
+    for file in files {
+        let file = file.path();
         if file.is_dir() {
             continue;
         }
-- 
2.43.0


From a0fa6bb0e383cc0faa8e578fd18e20b1c1cd8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:49 +0000
Subject: [PATCH 117/124] fix: link addons with nested prefixes for
 binarization without changing the sources

---
 bin/src/modules/binarize/mod.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index e0c2b5c..3ca1ddf 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -395,14 +395,37 @@ fn check_signature(buf: [u8; 4]) -> bool {
     buf == [0x4F, 0x50, 0x52, 0x57]
 }
 
+/// Link a folder, leaving room for the addons with a prefix below it
+fn link_folder(link: &PathBuf, target: &PathBuf, mounts: &[PathBuf]) -> Result<(), Error> {
+    let has_mounts = mounts
+        .iter()
+        .any(|mount| mount != link && mount.starts_with(link));
+    if !has_mounts || !target.is_dir() {
+        return create_link(link, target);
+    }
+    create_dir_all(link)?;
+    for entry in std::fs::read_dir(target)? {
+        let entry = entry?;
+        let inner = link.join(entry.file_name());
+        if !mounts.contains(&inner) {
+            link_folder(&inner, &entry.path(), mounts)?;
+        }
+    }
+    Ok(())
+}
+
 fn setup_tmp(ctx: &Context) -> Result<(), Error> {
     create_dir_all(ctx.tmp())?;
     create_dir_all(ctx.tmp().join("hemtt_binarize_output"))?;
-    for addon in ctx.all_addons() {
-        let tmp_addon = ctx.tmp().join(addon.prefix().as_pathbuf());
+    let mounts = ctx
+        .all_addons()
+        .iter()
+        .map(|addon| ctx.tmp().join(addon.prefix().as_pathbuf()))
+        .collect::<Vec<_>>();
+    for (addon, tmp_addon) in ctx.all_addons().iter().zip(&mounts) {
         create_dir_all(tmp_addon.parent().expect("tmp addon should have a parent"))?;
         let target = ctx.project_folder().join(addon.folder_pathbuf());
-        create_link(&tmp_addon, &target)?;
+        link_folder(tmp_addon, &target, &mounts)?;
     }
     // maybe replace with config or rhai in the future?
     let addons = ctx.project_folder().join("addons");
@@ -458,7 +481,7 @@ fn setup_tmp(ctx: &Context) -> Result<(), Error> {
                     let tmp_mod = tmp_outer_prefix
                         .join(prefix.file_name().expect("prefix should have a name"));
                     create_dir_all(tmp_mod.parent().expect("tmp mod should have a parent"))?;
-                    create_link(&tmp_mod, &prefix)?;
+                    link_folder(&tmp_mod, &prefix, &mounts)?;
                 }
             }
         }
-- 
2.43.0


From df4161eef5e4f571daecf9dd98c5489375a26060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:49 +0000
Subject: [PATCH 118/124] fix: binarize models in folders named like their
 addon

---
 bin/src/modules/binarize/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index 3ca1ddf..214960c 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -248,15 +248,15 @@ impl Module for Binarize {
                         }
                     }
 
+                    let parent = entry.parent();
                     let tmp_sourced = ctx.tmp().join(addon.prefix().as_pathbuf()).join(
-                        entry
+                        parent
                             .as_str()
-                            .trim_start_matches('/')
-                            .trim_start_matches(&addon.folder().to_string())
-                            .trim_start_matches('/')
-                            .trim_end_matches(&entry.filename()),
+                            .strip_prefix(&format!("/{}", addon.folder()))
+                            .unwrap_or_else(|| parent.as_str())
+                            .trim_start_matches('/'),
                     );
-                    let tmp_outed = tmp_out.join(entry.parent().as_str().trim_start_matches('/'));
+                    let tmp_outed = tmp_out.join(parent.as_str().trim_start_matches('/'));
 
                     self.prechecked
                         .write()
-- 
2.43.0


From 401f818e880bd573a342dae772fa2a45812e0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:49 +0000
Subject: [PATCH 119/124] fix: report models the tools fail on instead of
 crashing

---
 bin/src/modules/binarize/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index 214960c..08b42af 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -355,11 +355,13 @@ impl Module for Binarize {
                 .current_dir(ctx.tmp());
                 trace!("{:?}", cmd);
                 let output = cmd.output().expect("should be able to run binarize");
-                assert!(
-                    output.status.success(),
-                    "binarize failed with code {:?}",
-                    output.status.code().unwrap_or(-1)
-                );
+                if !output.status.success() {
+                    debug!(
+                        "binarize failed with code {:?}",
+                        output.status.code().unwrap_or(-1)
+                    );
+                    return Some(BinarizeFailed::code(target.entry.clone()));
+                }
                 if PathBuf::from(&target.output).join(&target.entry).exists() {
                     counter.fetch_add(1, Ordering::Relaxed);
                     None
-- 
2.43.0


From 638885bfb3db809a2100facba3ed7873bf1e9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:29 +0000
Subject: [PATCH 120/124] fix: count macro uses beyond 65535

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 072248a..6a44c18 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -24,7 +24,7 @@ pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
     expanding: Vec<Arc<str>>,
-    counter: u16,
+    counter: usize,
 }
 
 /// Built-in macros that HEMTT supports, constants
@@ -140,7 +140,7 @@ impl Defines {
                         return Some((
                             key.clone(),
                             Definition::Value(vec![Arc::new(Token::new(
-                                Symbol::Digit(counter.into()),
+                                Symbol::Digit(counter),
                                 key.position().clone(),
                             ))]),
                             DefineSource::Generated,
-- 
2.43.0


From cc6d4e0f4b1815468dde1273ce97e0bf220ec29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:36 +0000
Subject: [PATCH 121/124] fix: report unsupported built-in macros with a size,
 and in arguments

---
 libs/preprocessor/src/defines.rs           | 13 +++++++++++--
 libs/preprocessor/src/processor/defines.rs |  1 +
 libs/preprocessor/src/processor/mod.rs     | 18 ++++++++++++------
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 6a44c18..89ac92d 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -69,12 +69,21 @@ impl Defines {
     pub fn is_builtin(key: &str) -> bool {
         BUILTIN_GEN.contains(&key)
             || BUILTIN_SPECIAL.contains(&key)
-            || BUILTIN_PROTEST.contains(&key)
+            || Self::is_unsupported_builtin(key)
             || BUILTIN_CONST.iter().any(|(k, _)| *k == key)
     }
 
     pub fn is_unsupported_builtin(key: &str) -> bool {
-        BUILTIN_PROTEST.contains(&key)
+        BUILTIN_PROTEST
+            .iter()
+            .any(|builtin| match builtin.split_once('*') {
+                // any number
+                Some((start, end)) => key
+                    .strip_prefix(start)
+                    .and_then(|key| key.strip_suffix(end))
+                    .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit())),
+                None => *builtin == key,
+            })
     }
 
     pub fn contains_key(&self, key: &str) -> bool {
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 00b853f..42caa01 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -58,6 +58,7 @@ impl Processor {
                 continue;
             }
             if let Symbol::Word(word) = symbol {
+                Self::expect_supported(token, word)?;
                 if self.defines.can_expand(word) {
                     let mut inner = Vec::new();
                     self.define_use(callsite, pragma, stream, &mut inner)?;
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 1f38abf..0fa0450 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -155,12 +155,7 @@ impl Processor {
         while let Some(token) = stream.peek() {
             match (token.symbol(), in_quotes) {
                 (Symbol::Word(w), false) => {
-                    if w == "__EXEC" {
-                        return Err(ExecNotSupported::code((**token).clone()));
-                    }
-                    if Defines::is_unsupported_builtin(w) {
-                        return Err(BuiltInNotSupported::code((**token).clone()));
-                    }
+                    Self::expect_supported(token, w)?;
                     just_whitespace = false;
                     if Some(w.as_str()) != in_macro && self.defines.can_expand(w) {
                         let token = token.clone();
@@ -239,6 +234,17 @@ impl Processor {
         Ok(())
     }
 
+    /// Expect a word that is not a built-in macro without support
+    fn expect_supported(token: &Token, word: &str) -> Result<(), Error> {
+        if word == "__EXEC" {
+            return Err(ExecNotSupported::code(token.clone()));
+        }
+        if Defines::is_unsupported_builtin(word) {
+            return Err(BuiltInNotSupported::code(token.clone()));
+        }
+        Ok(())
+    }
+
     /// Returns the current word, consuming it from the stream
     ///
     /// # Errors
-- 
2.43.0


From cc006e3d3a716f14362e15f214a93b815f9f5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:25 +0000
Subject: [PATCH 122/124] fix: show the documentation of commands as it was
 written

Arrays in code are not links, links to pages with spaces work, several
boxes and nested arguments are kept apart.
---
 hls/src/sqf/hover.rs | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/hls/src/sqf/hover.rs b/hls/src/sqf/hover.rs
index e9cb986..e854b91 100644
--- a/hls/src/sqf/hover.rs
+++ b/hls/src/sqf/hover.rs
@@ -1,6 +1,6 @@
-use arma3_wiki::model::{Command, Locality, Since, Syntax};
+use arma3_wiki::model::{Arg, Command, Locality, Since, Syntax};
 use hemtt_sqf::parser::database::Database;
-use regex::Regex;
+use regex::{Captures, Regex};
 use tower_lsp::lsp_types::{Hover, HoverContents, MarkedString, Position};
 use tracing::debug;
 use url::Url;
@@ -80,9 +80,20 @@ fn hover(command: &str, database: &Database) -> Hover {
 }
 
 fn markdown(name: &str, s: &str) -> String {
-    let s = markdown_code(s);
-    let s = markdown_feature(s);
-    markdown_links(name, s)
+    // code is left as it is, brackets in it are not links
+    let regex =
+        Regex::new(r"(?s)<sqf inline>.+?</sqf>|<sqf>.+?</sqf>|\{\{hl\|(?-s:.+?)\}\}").unwrap();
+    let mut code = Vec::new();
+    let s = regex.replace_all(s, |mat: &Captures| {
+        code.push(markdown_code(&mat[0]));
+        format!("\0{}\0", code.len() - 1)
+    });
+    let s = markdown_links(name, s.into_owned());
+    let mut s = markdown_feature(s);
+    for (i, code) in code.iter().enumerate() {
+        s = s.replace(&format!("\0{i}\0"), code);
+    }
+    s
 }
 
 fn markdown_links(name: &str, source: String) -> String {
@@ -104,7 +115,7 @@ fn markdown_links(name: &str, source: String) -> String {
         }
         string = string.replace(
             &format!("[[{}]]", link),
-            &format!("[{}](https://community.bistudio.com/wiki/{})", link, link),
+            &format!("[{}]({WIKI}{})", link, link.replace(' ', "_")),
         );
     }
 
@@ -124,7 +135,7 @@ fn markdown_links(name: &str, source: String) -> String {
                     link.replace(' ', "_"),
                 )
             } else {
-                format!("[{}](https://community.bistudio.com/wiki/{})", link, link)
+                format!("[{}]({WIKI}{})", link, link.replace(' ', "_"))
             },
         );
     }
@@ -133,7 +144,8 @@ fn markdown_links(name: &str, source: String) -> String {
 
 fn markdown_feature(source: String) -> String {
     let mut string = source.clone();
-    let regex = Regex::new(r"(?mis)\{\{\s?Feature\s?\|\s?(.+?)\s?\|\s?(.+)\}\}").unwrap();
+    let regex =
+        Regex::new(r"(?mis)\{\{\s?Feature\s?\|\s?(.+?)\s?\|\s?((?:\{\{.+?\}\}|.)+?)\}\}").unwrap();
     let result = regex.captures_iter(&source);
     for mat in result {
         let feature = mat.get(1).unwrap().as_str();
@@ -220,15 +232,15 @@ fn markdown_syntax(command: &Command, syntax: &Syntax) -> String {
             string.push_str(&format!(
                 "```sqf\n{} {}\n```\n",
                 command.name(),
-                markdown_args(&rhs.names())
+                markdown_args(rhs)
             ));
         }
         arma3_wiki::model::Call::Binary(lhs, rhs) => {
             string.push_str(&format!(
                 "```sqf\n{} {} {}\n```\n",
-                markdown_args(&lhs.names()),
+                markdown_args(lhs),
                 command.name(),
-                markdown_args(&rhs.names())
+                markdown_args(rhs)
             ));
         }
     }
@@ -264,11 +276,16 @@ fn markdown_syntax(command: &Command, syntax: &Syntax) -> String {
     string
 }
 
-fn markdown_args(args: &[String]) -> String {
-    if args.len() == 1 {
-        args[0].clone()
-    } else {
-        format!("[{}]", args.join(", "))
+fn markdown_args(arg: &Arg) -> String {
+    match arg {
+        Arg::Item(name) => name.clone(),
+        Arg::Array(args) => format!(
+            "[{}]",
+            args.iter()
+                .map(markdown_args)
+                .collect::<Vec<_>>()
+                .join(", ")
+        ),
     }
 }
 
-- 
2.43.0


From cff863038b2857f8b256cda043548d4b7fa71f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:17 +0000
Subject: [PATCH 123/124] fix: report files of custom commands that cannot be
 read

---
 libs/sqf/src/parser/database/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libs/sqf/src/parser/database/mod.rs b/libs/sqf/src/parser/database/mod.rs
index 528bfcb..98e44dc 100644
--- a/libs/sqf/src/parser/database/mod.rs
+++ b/libs/sqf/src/parser/database/mod.rs
@@ -116,7 +116,7 @@ impl Database {
         let mut database = Self::a3(force_pull);
         let custom_root = workspace.join("/.hemtt/commands");
         if let Ok(custom_root) = custom_root {
-            if custom_root.exists().unwrap_or(false) {
+            if custom_root.is_dir().unwrap_or(false) {
                 for entry in custom_root
                     .read_dir()
                     .expect("failed to read custom commands dir")
@@ -124,13 +124,11 @@ impl Database {
                     if !entry.is_file().unwrap_or(false) {
                         continue;
                     }
-                    let content = entry
+                    let command = entry
                         .read_to_string()
-                        .expect("failed to read custom command file");
-                    let command = database
-                        .wiki
-                        .add_custom_command_parse(&content)
-                        .map_err(Error::CustomCommandError)?;
+                        .map_err(|e| e.to_string())
+                        .and_then(|content| database.wiki.add_custom_command_parse(&content))
+                        .map_err(|e| Error::CustomCommandError(format!("{entry}: {e}")))?;
                     for syntax in command.syntax() {
                         match syntax.call() {
                             Call::Nular => {
-- 
2.43.0


From 4517934680bdc9fb4c0f1c17c8fbef8ef017885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:18 +0000
Subject: [PATCH 124/124] fix: mark the last token of what ends a file

---
 libs/workspace/src/reporting/processed.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 0949388..9616651 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -278,16 +278,28 @@ impl Processed {
     pub fn original_span(&self, mut span: Range<usize>) -> Option<(&WorkspacePath, Range<usize>)> {
         // Error out out bounds, will never show, just use last char
         let last = self.as_str().chars().count().saturating_sub(1);
+        let ends_last = span.start <= last && span.end > last;
         span.start = span.start.min(last);
         span.end = span.end.min(last);
         let map_start = self.mapping(span.start)?;
         let map_end = self.mapping(span.end)?;
         let (file, _) = self.source(map_start.source())?;
         let start = map_start.original_start();
+        let follows =
+            |end: usize, map: &Mapping| map.source() == map_start.source() && end >= start;
         let mut end = map_end.original_start();
-        if map_end.source() != map_start.source() || end < start {
-            // the span ends in another file, or before a macro was used
-            end = map_start.original_end().max(start);
+        if ends_last || !follows(end, map_end) {
+            // nothing of this file follows: end with the last token of the span, or with the
+            // first when the last is in another file, or before a macro was used
+            let map_last = if ends_last {
+                map_end
+            } else {
+                self.mapping(span.end.saturating_sub(1).max(span.start))?
+            };
+            end = map_last.original_end();
+            if !follows(end, map_last) {
+                end = map_start.original_end().max(start);
+            }
         }
         Some((file, start..end))
     }
-- 
2.43.0

