From e44642932d0d938155a0925415dcbf2751932ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 01/68] fix: json: track backslash escapes exactly inside
 strings

An escaped quote right before the closing quote, or an escaped backslash
followed by the closing quote, desynchronised the string state, so that
whitespace inside later strings was dropped (and kept outside of them).
---
 src/json/json_minifier.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..87f5099 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -22,26 +22,21 @@ impl JsonMinifier {
 }
 
 #[inline]
-pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
+    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
 #[inline]
-fn is_whitespace_outside_string(
-    minifier: &mut JsonMinifier,
-    item1: &char,
-    item2: Option<&char>,
-) -> bool {
+fn is_whitespace_outside_string(minifier: &mut JsonMinifier, item1: &char) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
         if minifier.escaped_quotation > 0 {
             minifier.escaped_quotation -= 1;
+        } else if item1.eq(&'\\') {
+            // Whatever comes next (a quote or another backslash), it is escaped.
+            minifier.escaped_quotation = 1;
         } else if item1.eq(&'"') {
             minifier.is_string = false;
         }
-- 
2.43.0


From 2f75afb9b71f9bc7bca04eb2c35f8dd136a5a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 02/68] fix: json: keep U+007F inside strings

JSON only forbids U+0000 to U+001F in strings; DEL was silently removed.
---
 src/json/json_minifier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index 87f5099..feda264 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,7 +23,8 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
-    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
+    // U+007F is a control character too, but JSON allows it in strings.
+    let remove_element = *item1 < ' ' || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
-- 
2.43.0


From 686896136f9e9e698dc3ba173b079233d214b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 03/68] fix: json: do not take a short read for the end of the
 input

A reader is free to return less than what was asked for (pipes, sockets,
chained readers do); everything after the first such read was lost.
---
 src/json/read/internal_buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..4f5ea0d 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -39,6 +37,7 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        // A short read is not the end of the input: only an empty one is.
+        self.data_size > 0
     }
 }
-- 
2.43.0


From 6ba2a53f470d1bffe2bf92392f331bc9e8e9b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 04/68] fix: json: do not lose bytes of a character split by
 the caller's buffer

When a multi-byte character did not fit in the remaining space of the
buffer given to read(), its remaining bytes were dropped.
---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..20204e3 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,6 +85,12 @@ where
             self.initialized = true;
         }
 
+        // What was left of the last character when the previous buffer was full.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         while let Some(item) = self.item1.take() {
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
-- 
2.43.0


From ade4513dab1acd381cd08bc0ffe74a7a9e104657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 05/68] fix: json: an error of the underlying reader loses no
 data

An error dropped the reader (when it was the first read, the next read()
then panicked), the current character and everything already copied into
the caller's buffer, and Interrupted/WouldBlock were reported as
InvalidData so callers could not know they should retry.
---
 src/json/read/byte_to_char.rs    | 59 +++++++++++++++++++-------------
 src/json/read/internal_reader.rs | 20 +++++------
 src/json/read/json_read.rs       | 31 ++++++++++++++---
 3 files changed, 72 insertions(+), 38 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..b8f4d3d 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -9,14 +9,20 @@ use std::{
 
 pub struct ByteToChar<R> {
     iter: InternalReader<R>,
+    // Bytes of a character which isn't complete yet: an error (which can be temporary) can happen
+    // in the middle of it.
+    buf: [u8; 4],
+    start: usize,
 }
 
 impl<R: Read> ByteToChar<R> {
     #[inline]
-    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
-        Ok(ByteToChar {
-            iter: InternalReader::new(read, buffer_size)?,
-        })
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        ByteToChar {
+            iter: InternalReader::new(read, buffer_size),
+            buf: [0; 4],
+            start: 0,
+        }
     }
 
     fn get_next(&mut self) -> Result<Option<u8>, CharsError> {
@@ -40,34 +46,41 @@ impl<R: Read> Iterator for ByteToChar<R> {
     type Item = Result<char, CharsError>;
 
     fn next(&mut self) -> Option<Result<char, CharsError>> {
-        let first_byte = match self.get_next() {
-            Err(err) => return Some(Err(err)),
-            Ok(item) => item?,
-        };
+        if self.start == 0 {
+            let first_byte = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => item?,
+            };
+            self.buf[0] = first_byte;
+            self.start = 1;
+        }
 
+        let first_byte = self.buf[0];
         let width = utf8_char_width(first_byte);
         if width == 1 {
+            self.start = 0;
             return Some(Ok(first_byte as char));
         }
         if width == 0 {
+            self.start = 0;
             return Some(Err(CharsError::NotUtf8));
         }
-        let mut buf = [first_byte, 0, 0, 0];
-        {
-            let mut start = 1;
-            while start < width {
-                let byte = match self.get_next() {
-                    Err(err) => return Some(Err(err)),
-                    Ok(item) => match item {
-                        Some(item) => item,
-                        None => return Some(Err(CharsError::NotUtf8)),
-                    },
-                };
-                buf[start] = byte;
-                start += 1;
-            }
+        while self.start < width {
+            let byte = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => match item {
+                    Some(item) => item,
+                    None => {
+                        self.start = 0;
+                        return Some(Err(CharsError::NotUtf8));
+                    }
+                },
+            };
+            self.buf[self.start] = byte;
+            self.start += 1;
         }
-        Some(match from_utf8(&buf[..width]).ok() {
+        self.start = 0;
+        Some(match from_utf8(&self.buf[..width]).ok() {
             Some(s) => Ok(s.chars().next().unwrap()),
             None => Err(CharsError::NotUtf8),
         })
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..68b4946 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -13,14 +13,12 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
-        Ok(InternalReader {
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        InternalReader {
             read,
             buffer_size,
-            buffer,
-        })
+            buffer: Buffer::new(buffer_size),
+        }
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
@@ -51,11 +49,11 @@ impl<R: Read> Iterator for InternalReader<R> {
         loop {
             if let Some(item) = self.buffer.next() {
                 return Some(Ok(item));
-            } else if self.buffer.cont() {
-                if let Err(err) = InternalReader::read_data(&mut self.read, &mut self.buffer) {
-                    return Some(Err(err));
-                };
-            } else {
+            }
+            if let Err(err) = InternalReader::read_data(&mut self.read, &mut self.buffer) {
+                return Some(Err(err));
+            }
+            if !self.buffer.cont() {
                 return None;
             }
         }
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 20204e3..9a4629c 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -18,6 +18,7 @@ pub struct JsonRead<P, R> {
     initialized: bool,
     item_iter: Option<IntoIter<u8>>,
     item1: Option<char>,
+    error: Option<Error>,
 }
 
 impl<P, R: Read> JsonRead<P, R> {
@@ -31,6 +32,7 @@ impl<P, R: Read> JsonRead<P, R> {
             initialized: false,
             item_iter: None,
             item1: None,
+            error: None,
         }
     }
 
@@ -79,8 +81,15 @@ where
             return Ok(0);
         }
 
+        // An error which happened after some bytes were already available.
+        if let Some(error) = self.error.take() {
+            return Err(error);
+        }
+
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
+            if let Some(read) = self.read.take() {
+                self.iter = Some(ByteToChar::new(read, buf.len()));
+            }
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
@@ -92,7 +101,18 @@ where
         }
 
         while let Some(item) = self.item1.take() {
-            self.item1 = self.get_next()?;
+            self.item1 = match self.get_next() {
+                Ok(item1) => item1,
+                Err(error) => {
+                    // The error can be temporary so nothing must be lost.
+                    self.item1 = Some(item);
+                    if buf_pos == 0 {
+                        return Err(error.into());
+                    }
+                    self.error = Some(error.into());
+                    break;
+                }
+            };
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
@@ -106,7 +126,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(error: CharsError) -> Self {
+        match error {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(error) => error,
+        }
     }
 }
-- 
2.43.0


From 9b5855d47e334a0b96593cde30c5cf9a54f0ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 06/68] fix: js: a line comment at the end of the source is a
 comment

Without a final backline its content was emitted as code, and when it
started with a non-ASCII character the tokenizer panicked.
---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..6c2e6f5 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The comment isn't followed by a backline so it ends with the source.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 1439c2c6cecd3dfe03e7555af5e74ed10d9f1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 07/68] fix: js: no panic on an unclosed comment ending with a
 multi-byte character

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6c2e6f5..cfe2862 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,13 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
-                break;
+                let ret = builder(&source[*start_pos..pos - 1]);
+                *start_pos = pos;
+                return ret;
             }
             prev = c;
         } else {
@@ -664,9 +663,8 @@ fn get_comment<'a>(
         }
     }
     // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..]);
+    *start_pos = source.len();
     ret
 }
 
-- 
2.43.0


From 552cfb4dc496ec9b534cf7999fa6354b81da4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 08/68] fix: js: rewinding the tokenizer puts every character
 back, in order

When a slash turned out not to start a regex, characters already peeked
were duplicated, lost or reordered by the next rewind, which made the
tokenizer panic on an invalid slice (for example on "/.\n//") or emit
the code in another order.
---
 src/js/token.rs | 43 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index cfe2862..27ce1dd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -846,50 +846,38 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
             peeked: None,
-            is_saving: false,
+            saved: None,
         }
     }
 
+    /// Remember the current position so `stop_save` can go back to it.
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -899,20 +887,7 @@ impl Iterator for MyPeekable<'_> {
     type Item = (usize, char);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.peeked.is_some() {
-            self.peeked.take()
-        } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
-        }
+        self.peeked.take().or_else(|| self.inner.next())
     }
 }
 
-- 
2.43.0


From 77c87446c19569d2cba42ef2a43ed2dacfcdf7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 09/68] fix: js: keep octal numbers and do not take nan/inf for
 numbers

`010` was emitted as `10`, and an identifier such as `nan` was glued to
the word following it.
---
 src/js/token.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 27ce1dd..7b81578 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -765,11 +765,15 @@ fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
 
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
+        // `usize` cannot represent leading zeros (`010` is an octal number) and `f64` accepts some
+        // identifiers such as `nan` or `inf`.
+        let is_octal = pos - start > 1 && source[start..pos].starts_with('0');
+        let is_ident = source[start..pos].starts_with(|c: char| c.is_ascii_alphabetic());
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let (Ok(n), false) = (usize::from_str(&source[start..pos]), is_octal) {
             v.push(Token::Number(n))
-        } else if f64::from_str(&source[start..pos]).is_ok() {
+        } else if !is_ident && f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
         } else {
             v.push(Token::Other(&source[start..pos]));
-- 
2.43.0


From cdc9702f9e1cdf74e73ad8bd9374588bd757cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 10/68] fix: js: recognise regexes after keywords and with
 slashes in classes

The content of `/[/  ]/` or of `return /a  b/` was minified as code (and
its quotes taken for strings), while `i++ / a / b` was taken for a regex.
---
 src/js/token.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7b81578..fa0ad13 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -163,6 +163,22 @@ impl Keyword {
     fn requires_before(&self) -> bool {
         matches!(*self, Keyword::In | Keyword::InstanceOf)
     }
+
+    // Values, and keywords which also are valid variable names.
+    fn is_value(&self) -> bool {
+        matches!(
+            *self,
+            Keyword::This
+                | Keyword::True
+                | Keyword::False
+                | Keyword::Null
+                | Keyword::Let
+                | Keyword::Private
+                | Keyword::Protected
+                | Keyword::Public
+                | Keyword::Static
+        )
+    }
 }
 
 impl fmt::Display for Keyword {
@@ -563,6 +579,13 @@ fn get_line_comment<'a>(
     ret
 }
 
+fn is_property(v: &[Token<'_>]) -> bool {
+    match first_useful(v) {
+        Some(t) => t.eq_char(ReservedChar::Dot),
+        None => false,
+    }
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -587,11 +610,29 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // `this`, `true`... are values and `x.return` is a property.
+            Token::Keyword(k) if !k.is_value() && !is_property(&v[..back]) => break,
+            Token::Other("void" | "delete" | "yield" | "await") if !is_property(&v[..back]) => {
+                break
+            }
+            // The postfix operators `++` and `--` end a value.
+            Token::Operation(o @ (Operation::Addition | Operation::Subtract))
+                if v[..=back]
+                    .iter()
+                    .rev()
+                    .take_while(|t| t.eq_operation(*o))
+                    .count()
+                    % 2
+                    == 0 =>
+            {
+                return None
+            }
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
     }
     iterator.start_save();
+    let mut in_class = false;
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -599,7 +640,12 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            // A slash doesn't end the regex inside a class.
+            if c == ReservedChar::OpenBracket {
+                in_class = true;
+            } else if c == ReservedChar::CloseBracket {
+                in_class = false;
+            } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
@@ -947,8 +993,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 ReservedChar::Slash
                     if iterator.peek().is_some()
                         && iterator.peek().unwrap().1 != '/'
-                        && iterator.peek().unwrap().1 != '*'
-                        && !first_useful(&v).unwrap_or(&Token::String("")).is_other() =>
+                        && iterator.peek().unwrap().1 != '*' =>
                 {
                     if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
                         v.push(r);
-- 
2.43.0


From 883733053490fb7db3daffb60a87f67e9a97988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 11/68] fix: js: skip comments inside template literal
 substitutions

A quote, a backtick or a brace in such a comment was taken for code, so
the end of the template literal was missed.
---
 src/js/token.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index fa0ad13..8994b9e 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -764,6 +764,12 @@ fn get_backtick_string<'a>(
                         // we skip next character
                         iterator.next();
                         continue;
+                    } else if c == '/' && iterator.peek().map(|(_, c)| c) == Some('/') {
+                        get_line_comment(source, iterator, &mut pos);
+                    } else if c == '/' && iterator.peek().map(|(_, c)| c) == Some('*') {
+                        iterator.next();
+                        pos += 1;
+                        get_comment(source, iterator, &mut pos);
                     } else if c == '"' || c == '\'' {
                         // We don't care about the result
                         get_string(
-- 
2.43.0


From f98c43246ba247e7cdef8bad9f4ae4ec17786572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 12/68] fix: js: separate a created variable from the word
 before it

Aggregating the string of `return 'x'` gave `returnr_aa`.
---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8994b9e..c5f89fe 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -544,6 +544,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
-- 
2.43.0


From e423a7c545fe4347e1e792e185d9f2a5a914d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 13/68] fix: js: keep what separates tokens which would be
 merged otherwise

`a + +b`, `a - -b`, `1 .a`, `a / /b/`, `a / /*! license */ b` and
`a < !--b` were changed into something else (or into a comment).
---
 src/js/token.rs | 17 +++++++++++++++++
 src/js/utils.rs | 47 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c5f89fe..7e01c66 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1052,6 +1052,22 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 #[derive(Debug, PartialEq, Eq)]
 pub struct Tokens<'a>(pub Vec<Token<'a>>);
 
+/// Returns true if, once written, the two first tokens would start a comment.
+fn starts_comment(tokens: &[Token<'_>]) -> bool {
+    match (&tokens[0], tokens.get(1)) {
+        (Token::Operation(Operation::Divide), Some(next)) => next.is_regex() || next.is_license(),
+        // `<!--`
+        (Token::Condition(Condition::InferiorThan), Some(next)) => {
+            next.eq_char(ReservedChar::ExclamationMark)
+                && tokens.len() > 3
+                && tokens[2..4]
+                    .iter()
+                    .all(|t| t.eq_operation(Operation::Subtract))
+        }
+        _ => false,
+    }
+}
+
 macro_rules! tokens_writer {
     ($self:ident, $w:ident) => {
         let tokens = &$self.0;
@@ -1070,6 +1086,7 @@ macro_rules! tokens_writer {
                 Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
                     tokens[i + 1].get_required()
                 }
+                _ if starts_comment(&tokens[i..]) => Some(' '),
                 _ => None,
             } {
                 write!($w, "{}", c)?;
diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..1b72715 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -240,12 +240,35 @@ pub fn get_variable_name_and_value_positions<'a>(
     None
 }
 
+/// Returns true if the two tokens cannot be written next to each other if they weren't already.
+fn must_stay_separated(prev: &Token<'_>, next: &Token<'_>) -> bool {
+    match *prev {
+        // `+ +` isn't `++`.
+        Token::Operation(Operation::Addition | Operation::Subtract) => prev == next,
+        // `1 .a` isn't `1.a`.
+        Token::Number(_) => next.eq_char(ReservedChar::Dot),
+        Token::FloatingNumber(n) | Token::Other(n) => {
+            n.starts_with(|c: char| c.is_ascii_digit())
+                && !n.contains('.')
+                && next.eq_char(ReservedChar::Dot)
+        }
+        _ => false,
+    }
+}
+
+/// Skips the useless tokens. They are replaced by a space in `v` if they are needed to separate its
+/// last token from the returned one.
 #[inline]
-fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
+fn get_next<'a>(it: &mut IntoIter<Token<'a>>, v: &mut Vec<Token<'a>>) -> Option<Token<'a>> {
+    let mut skipped = false;
     for t in it {
         if t.is_comment() || t.is_white_character() {
+            skipped = true;
             continue;
         }
+        if skipped && v.last().is_some_and(|prev| must_stay_separated(prev, &t)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         return Some(t);
     }
     None
@@ -271,7 +294,7 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
     let mut it = tokens.0.into_iter();
 
     loop {
-        let token = get_next(&mut it);
+        let token = get_next(&mut it, &mut v);
         if token.is_none() {
             break;
         }
@@ -314,12 +337,18 @@ pub fn clean_token(token: &Token<'_>, next_token: &Option<&Token<'_>>) -> bool {
 #[inline]
 fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
     it: &mut IntoIter<Token<'a>>,
+    v: &mut Vec<Token<'a>>,
     f: &F,
 ) -> Option<Token<'a>> {
+    let mut skipped = false;
     for t in it {
         if (t.is_comment() || t.is_white_character()) && f(&t) {
+            skipped = true;
             continue;
         }
+        if skipped && v.last().is_some_and(|prev| must_stay_separated(prev, &t)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         return Some(t);
     }
     None
@@ -350,7 +379,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
     let mut it = tokens.0.into_iter();
 
     loop {
-        let token = get_next_except(&mut it, &f);
+        let token = get_next_except(&mut it, &mut v, &f);
         if token.is_none() {
             break;
         }
@@ -366,13 +395,15 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
                 }
                 continue;
             }
-            if let Some(next) = get_next_except(&mut it, &f) {
-                if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {
-                    v.push(token);
+            let useless = f(&token);
+            v.push(token);
+            if let Some(next) = get_next_except(&mut it, &mut v, &f) {
+                if next == Token::Char(ReservedChar::CloseCurlyBrace) && useless {
+                    v.pop();
                 }
                 v.push(next);
-            } else if !f(&token) {
-                v.push(token);
+            } else if useless {
+                v.pop();
             }
             continue;
         }
-- 
2.43.0


From f291f403c3a368164db1886fe67a43b8cdab0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 14/68] fix: js: keep the hashbang line

It was merged with the code following it, and its content minified.
---
 src/js/token.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7e01c66..c26052f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -953,6 +953,16 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut start = 0;
     let mut iterator = MyPeekable::new(source.char_indices());
 
+    if source.starts_with("#!") {
+        // The hashbang ends with the line, backline included, whatever it contains.
+        let end = source
+            .find(['\n', '\r'])
+            .map_or(source.len(), |pos| pos + 1);
+        v.push(Token::Other(&source[..end]));
+        iterator.find(|(pos, _)| pos + 1 >= end);
+        start = end;
+    }
+
     loop {
         let (mut pos, c) = match iterator.next() {
             Some(x) => x,
-- 
2.43.0


From 44c6fec80168bb2c9be502cac89d4db33ad1f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 15/68] fix: js: do not aggregate template literals

They were moved out of the scope of the variables they use, or had their
backticks replaced with double quotes.
---
 src/js/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..315da30 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -259,6 +259,10 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
+                // The value of a template literal depends on where it is.
+                if str_token.starts_with('`') {
+                    continue;
+                }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -427,7 +431,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             }
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
-                if !filter(&tokens, pos) {
+                // The value of a template literal depends on where it is.
+                if str_token.starts_with('`') || !filter(&tokens, pos) {
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
-- 
2.43.0


From 8b0113741080298f7bfd7840109c37b31e0289cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 16/68] fix: js: keep the quotes of an aggregated string which
 contains double quotes

An array element made from 'a "b"' was written "a "b"".
---
 src/js/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 315da30..8327905 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -498,7 +498,12 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            // In single quotes, a double quote doesn't need to be escaped.
+            let value = match tokens[tokens_pos[0]].get_string() {
+                Some(str_token) if s.contains('"') => str_token.to_owned(),
+                _ => format!("\"{}\"", *s),
+            };
+            to_insert.push((end_bracket, Token::CreatedVar(value)));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From d8047882373e86170b2905041eb072edc1ca3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 17/68] fix: js: right indexes when aggregating into an
 existing array

Elisions, a trailing comma or elements which aren't strings were not
counted, so strings were replaced with the wrong element.
---
 src/js/tools.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 8327905..a8b0242 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -415,14 +415,27 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut validated: HashSet<&str> = HashSet::new();
 
         let mut array_pos = 0;
+        let mut need_comma = false;
         for s in current_array_values.iter() {
             if let Some(st) = tokens.0[*s].get_string() {
-                strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
-                array_pos += 1;
-                validated.insert(&st[1..st.len() - 1]);
+                if !st.starts_with('`') {
+                    strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
+                    validated.insert(&st[1..st.len() - 1]);
+                }
                 to_ignore.insert(*s);
+                need_comma = true;
+            } else if tokens.0[*s].eq_char(ReservedChar::Comma) {
+                array_pos += 1;
+                need_comma = false;
+            } else {
+                // The array doesn't only contain strings: we cannot know the position of the
+                // strings in it.
+                return tokens;
             }
         }
+        if need_comma {
+            array_pos += 1;
+        }
 
         let mut array_pos_str = array_pos.to_string();
         for pos in 0..tokens.len() {
@@ -504,7 +517,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 _ => format!("\"{}\"", *s),
             };
             to_insert.push((end_bracket, Token::CreatedVar(value)));
-            if iter.peek().is_none() && current_array_values.is_empty() {
+            if iter.peek().is_none() && !need_comma {
                 continue;
             }
             to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
-- 
2.43.0


From f78a6e9647cf9c548ea9a31812a4f2602277f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 18/68] fix: js: never reuse an existing name for an aggregated
 string

Only the names of var and let declarations with a value were avoided:
functions, parameters, const or undeclared variables could be shadowed.
---
 src/js/tools.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index a8b0242..b567653 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -250,7 +250,14 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (all_variables, values) = get_variables_name(&tokens);
+        let (mut all_variables, values) = get_variables_name(&tokens);
+        // Whatever the way a name is declared (or not declared), it cannot be used.
+        for token in tokens.iter() {
+            if let Token::Other(s) | Token::String(s) = token {
+                let names = s.split(|c: char| c != '_' && c != '$' && !c.is_alphanumeric());
+                all_variables.extend(names.filter(|name| name.starts_with("r_")));
+            }
+        }
         while all_variables.contains(&next_name.as_str()) {
             var_gen.next();
             next_name = var_gen.to_string();
-- 
2.43.0


From 340697855f2f3b8b46411b42185eec8ef4233d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 19/68] fix: css: handle comments next to white characters as
 one separator

A comment at the start of the source, or between a white character and an
element which needs none, left a space: minifying the output again gave
another result.
---
 src/css/token.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..32bd6d6 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -589,6 +589,18 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut previous_element_index: Option<usize> = None;
     let mut is_in_calc = false;
     let mut paren = 0;
+
+    // Only one separator can be needed between two elements. A comment doesn't count if there is
+    // a white character next to it.
+    v.dedup_by(|elem, prev| {
+        let are_separators =
+            (elem.is_useless() || elem.is_comment()) && (prev.is_useless() || prev.is_comment());
+        if are_separators && elem.is_useless() {
+            *prev = Token::Char(ReservedChar::Space);
+        }
+        are_separators
+    });
+
     // A vector of bools indicating which elements are to be retained.
     let mut b = Vec::with_capacity(v.len());
 
@@ -606,6 +618,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
 
         let mut retain = true;
         if v[i].is_useless() || v[i].is_comment() {
+            if previous_element_index.is_none() {
+                // nothing to separate
+                retain = false;
+            }
             if let Some(previous_element_index) = previous_element_index {
                 #[allow(clippy::if_same_then_else)]
                 if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
-- 
2.43.0


From 0b33db62848a43d7805474ec9b9c4f26e30c4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 20/68] fix: css: keep the space before a parenthesis in nested
 at-rules

In a block of an at-rule, `@supports (a) and (b)` became `and(b)`.
---
 src/css/token.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 32bd6d6..f2d4ac2 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -631,12 +631,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     {
                         retain = false;
                     }
-                } else if matches!(v[previous_element_index], Token::Other(_))
-                    && matches!(
-                        v.get(i + 1),
-                        Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
-                    )
-                {
+                } else if matches!(
+                    v[previous_element_index],
+                    Token::Other(_) | Token::SelectorElement(SelectorElement::Tag(_))
+                ) && matches!(
+                    v.get(i + 1),
+                    Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
+                ) {
                     // retain the space between keywords
                     // and the space that disambiguates functions from keyword-plus-parens
                 } else if v[previous_element_index].is_a_selector_element()
-- 
2.43.0


From c1d7fadb6edd3fea4840f689233c757b2b44ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 21/68] fix: css: keep all the descendant combinators

A white character before `:` or around `*` was removed depending on what
the tokenizer made of its neighbours: `a ::before`, `:not(.a) *`,
`* [x]`, and nearly all of them in nested blocks.
---
 src/css/token.rs | 60 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index f2d4ac2..be31579 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -579,6 +579,57 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// Tells which tokens are part of the selectors of a rule.
+fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
+    let mut selectors = vec![false; v.len()];
+    let mut start = 0;
+    let mut is_at_rule = false;
+
+    for (i, token) in v.iter().enumerate() {
+        match token {
+            Token::Char(ReservedChar::OpenCurlyBrace) if !is_at_rule => {
+                selectors[start..i].fill(true);
+            }
+            Token::SelectorElement(SelectorElement::Media(_)) => is_at_rule = true,
+            Token::Other(s) if s.starts_with('@') => is_at_rule = true,
+            _ => {}
+        }
+        if matches!(
+            token.get_char(),
+            Some(
+                ReservedChar::OpenCurlyBrace
+                    | ReservedChar::CloseCurlyBrace
+                    | ReservedChar::SemiColon
+            )
+        ) {
+            start = i + 1;
+            is_at_rule = false;
+        }
+    }
+    selectors
+}
+
+/// In a selector, returns true if a white character between those two tokens is a descendant
+/// combinator.
+fn is_descendant(prev: &Token<'_>, next: &Token<'_>) -> bool {
+    let is_element = |token: &Token<'_>| {
+        matches!(
+            token,
+            Token::Other(_) | Token::SelectorElement(_) | Token::Char(ReservedChar::Star)
+        )
+    };
+    (is_element(prev)
+        || matches!(
+            prev.get_char(),
+            Some(ReservedChar::CloseParenthese | ReservedChar::CloseBracket)
+        ))
+        && (is_element(next)
+            || matches!(
+                next.get_char(),
+                Some(ReservedChar::Colon | ReservedChar::OpenBracket)
+            ))
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -601,6 +652,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         are_separators
     });
 
+    let selectors = get_selectors(&v);
     // A vector of bools indicating which elements are to be retained.
     let mut b = Vec::with_capacity(v.len());
 
@@ -624,7 +676,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
             }
             if let Some(previous_element_index) = previous_element_index {
                 #[allow(clippy::if_same_then_else)]
-                if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
+                if selectors[i]
+                    && v[i].is_useless()
+                    && v.get(i + 1)
+                        .is_some_and(|next| is_descendant(&v[previous_element_index], next))
+                {
+                    // retain the descendant combinator
+                } else if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
                     if i + 1 < v.len()
                         && (v[i + 1].is_useless()
                             || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-- 
2.43.0


From c5fe21bebeb706d0113dc5e0bd922e015dd8126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 22/68] fix: css: white characters around escapes

`.a \31 b` became `.a\31 b`, and the white character ending an
hexadecimal escape was merged with the ones following it.
---
 src/css/token.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index be31579..1b54a38 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -474,7 +474,28 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 
                     if let Some((idx, c)) = iterator.next() {
                         pos += c.len_utf8();
-                        v.push(Token::Other(&source[idx..idx + c.len_utf8()]));
+                        // A white character ends an hexadecimal escape: it is a part of it.
+                        if c.is_ascii_hexdigit() {
+                            let mut len = 1;
+                            while let Some(&(_, c)) = iterator.peek() {
+                                if c.is_ascii_hexdigit() && len < 6 {
+                                    len += 1;
+                                } else {
+                                    if c.is_ascii_whitespace() {
+                                        iterator.next();
+                                        pos += 1;
+                                        if c == '\r' && iterator.next_if(|c| c.1 == '\n').is_some()
+                                        {
+                                            pos += 1;
+                                        }
+                                    }
+                                    break;
+                                }
+                                iterator.next();
+                                pos += 1;
+                            }
+                        }
+                        v.push(Token::Other(&source[idx..=pos]));
                     }
                 }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
@@ -626,7 +647,7 @@ fn is_descendant(prev: &Token<'_>, next: &Token<'_>) -> bool {
         && (is_element(next)
             || matches!(
                 next.get_char(),
-                Some(ReservedChar::Colon | ReservedChar::OpenBracket)
+                Some(ReservedChar::Colon | ReservedChar::OpenBracket | ReservedChar::Backslash)
             ))
 }
 
@@ -732,7 +753,8 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                         || prev.is_a_license())
                         || (i < v.len() - 1
                             && v[i + 1].is_char()
-                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket))
+                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket)
+                            && v[i + 1] != Token::Char(ReservedChar::Backslash))
                     {
                         retain = false;
                     }
-- 
2.43.0


From e8bf7b953c3dae778b32ebbd606f2f863bbf381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 23/68] fix: css: a comment inside a compound selector isn't a
 combinator

`.a/**/.b` became `.a .b`.
---
 src/css/token.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 1b54a38..1686de6 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -651,6 +651,19 @@ fn is_descendant(prev: &Token<'_>, next: &Token<'_>) -> bool {
             ))
 }
 
+/// In a selector, returns true if the token cannot be the start of a compound selector's name.
+fn is_subclass(token: &Token<'_>) -> bool {
+    match token {
+        Token::SelectorElement(SelectorElement::Tag(_) | SelectorElement::Media(_)) => false,
+        Token::SelectorElement(_) => true,
+        Token::Other(s) => s.starts_with(['.', '#']),
+        _ => matches!(
+            token.get_char(),
+            Some(ReservedChar::Colon | ReservedChar::OpenBracket)
+        ),
+    }
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -703,6 +716,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                         .is_some_and(|next| is_descendant(&v[previous_element_index], next))
                 {
                     // retain the descendant combinator
+                } else if selectors[i] && v[i].is_comment() && v.get(i + 1).is_some_and(is_subclass)
+                {
+                    // a comment isn't a descendant combinator
+                    retain = false;
                 } else if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
                     if i + 1 < v.len()
                         && (v[i + 1].is_useless()
-- 
2.43.0


From eb1eced85315b8e7f02e3b4050ed73e062725bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 24/68] fix: css: keep the spaces around + in all the math
 functions

Only `calc` was handled: `min(1px + 2px, 3em)` or `-webkit-calc(1px + 2px)`
became invalid.
---
 src/css/token.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 1686de6..080d3b9 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -674,6 +674,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut previous_element_index: Option<usize> = None;
     let mut is_in_calc = false;
     let mut paren = 0;
+    let mut depth = 0;
 
     // Only one separator can be needed between two elements. A comment doesn't count if there is
     // a white character next to it.
@@ -702,6 +703,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
             }
         }
 
+        match v[i].get_char() {
+            Some(ReservedChar::OpenParenthese) => depth += 1,
+            Some(ReservedChar::CloseParenthese) => depth -= 1,
+            Some(ReservedChar::OpenCurlyBrace | ReservedChar::CloseCurlyBrace) => depth = 0,
+            _ => {}
+        }
+
         let mut retain = true;
         if v[i].is_useless() || v[i].is_comment() {
             if previous_element_index.is_none() {
@@ -761,6 +769,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
+                } else if !selectors[i]
+                    && depth > 0
+                    && v[i].is_useless()
+                    && (matches!(v[previous_element_index], Token::Char(ReservedChar::Plus))
+                        || matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Plus))))
+                {
+                    // retain the spaces around `+` in math functions
                 } else if is_in_calc && v[previous_element_index].is_useless() {
                     retain = false;
                 } else if !is_in_calc {
-- 
2.43.0


From 3c620deed5e150dcfb9113e53a83e0dd191b5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 25/68] fix: css: do not minify the content of unquoted URLs

`url(a/*b*/c)` was changed, and `url(data:a[b)` or `url(a{b)` broke
everything following it.
---
 src/css/token.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 080d3b9..4ee1753 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -371,6 +371,40 @@ fn get_comment<'a>(
     None
 }
 
+/// Only gets the content of an unquoted URL, without the parentheses.
+fn get_url<'a>(
+    source: &'a str,
+    iterator: &mut Peekable<CharIndices<'_>>,
+    start_pos: &mut usize,
+) -> Option<Token<'a>> {
+    let mut inner = iterator.clone();
+    while inner.next_if(|(_, c)| c.is_ascii_whitespace()).is_some() {}
+    let content_start_pos = inner.peek()?.0;
+    let mut content_end_pos = content_start_pos;
+
+    while let Some((pos, c)) = inner.next() {
+        match c {
+            ')' => {
+                let ret = Token::String(&source[content_start_pos..content_end_pos]);
+                while iterator.next_if(|c| c.0 < pos).is_some() {}
+                *start_pos = pos - 1;
+                return Some(ret);
+            }
+            '"' | '\'' | '(' => return None,
+            c if c.is_ascii_whitespace() => continue,
+            // Only the end is allowed after a white character.
+            _ if content_end_pos < pos => return None,
+            // we skip next character
+            '\\' => {
+                inner.next()?;
+            }
+            _ => {}
+        }
+        content_end_pos = inner.peek()?.0;
+    }
+    None
+}
+
 fn get_string<'a>(
     source: &'a str,
     iterator: &mut Peekable<CharIndices<'_>>,
@@ -515,6 +549,12 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         return Err("Unclosed comment");
                     }
                 }
+                ReservedChar::OpenParenthese if source[start..pos].eq_ignore_ascii_case("url") => {
+                    v.push(Token::Char(c));
+                    if let Some(s) = get_url(source, &mut iterator, &mut pos) {
+                        v.push(s);
+                    }
+                }
                 ReservedChar::OpenBracket => {
                     if is_in_attribute_selector {
                         return Err("Already in attribute selector");
-- 
2.43.0


From d41e271f3b88239584a3b761f5603154522a4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 26/68] fix: cli: an invalid input neither empties the output
 nor stops the others

The output file was truncated before the minification, which panicked on
an invalid CSS/JS input, as did reading a file which isn't UTF-8: the
previous output was lost and the remaining files were ignored.
---
 src/cli.rs | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..408da09 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -50,8 +50,15 @@ type will detect via extension of input file.
             .collect::<Vec<_>>();
         let ext: Option<&FileType> = matches.get_one::<FileType>("FileType");
         let out: Option<&PathBuf> = matches.get_one::<PathBuf>("output");
+        let mut failed = false;
         for path in args.into_iter() {
-            write_out_file(path, out, ext);
+            if let Err(e) = write_out_file(path, out, ext) {
+                eprintln!("{path:?}: {e}");
+                failed = true;
+            }
+        }
+        if failed {
+            std::process::exit(1);
         }
     }
 }
@@ -123,11 +130,15 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&FileType>) {
+fn write_out_file(
+    file_path: &PathBuf,
+    out_path: Option<&PathBuf>,
+    ext: Option<&FileType>,
+) -> Result<(), String> {
     let file_ext = if let Some(v) = ext {
         v
     } else {
@@ -135,10 +146,21 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     if file_ext == &FileType::Unknown {
         eprintln!("{file_path:?}: unknow file extension...");
-        return;
+        return Ok(());
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            // The output file must not be touched if there is nothing to put into it.
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content)
+                    .map_err(|e| format!("css minification failed: {e}"))?
+                    .to_string(),
+                FileType::Js => js::minify(&content)
+                    .map_err(|e| format!("js minification failed: {e}"))?
+                    .to_string(),
+                FileType::Json => json::minify(&content).to_string(),
+                FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +185,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
@@ -182,6 +194,8 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 eprintln!("Impossible to create new file: {out:?}");
             }
         }
+        Err(e) if e.kind() == io::ErrorKind::InvalidData => return Err(e.to_string()),
         Err(e) => eprintln!("{file_path:?}: {e}"),
     }
+    Ok(())
 }
-- 
2.43.0


From fdba8a18faf90819a8ed237d29f12be62872fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 27/68] fix: cli: report what prevents a file from being
 generated instead of panicking

An extension which isn't UTF-8 or an output directory which cannot be
created stopped the minification of the remaining files.
---
 src/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 408da09..da2ddc0 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -118,7 +118,7 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
+        match ext.unwrap().to_ascii_lowercase().to_str().unwrap_or("") {
             "css" => Self::Css,
             "js" => Self::Js,
             "json" => Self::Json,
@@ -169,7 +169,9 @@ fn write_out_file(
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        std::fs::create_dir_all(op.parent().unwrap()).map_err(|e| {
+                            format!("Impossible to create directory for {op:?}: {e}")
+                        })?;
                     };
                     op
                 }
-- 
2.43.0


From c500a81554c4267c61dfc7e9eaa381c20793be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 28/68] fix: cli: the output directory is used with absolute
 input paths too

---
 src/cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index da2ddc0..ae05029 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -165,7 +165,11 @@ fn write_out_file(
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        op.push(file_path);
+                        // Pushing an absolute path would replace the output directory.
+                        match file_path.file_name() {
+                            Some(name) if file_path.is_absolute() => op.push(name),
+                            _ => op.push(file_path),
+                        }
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-- 
2.43.0


From 03ab73791bb9d88b82dc4640f63f3e2a9f535d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 29/68] fix: html: keep the types of scripts and styles which
 aren't the default ones

Without its type, a module, a JSON block or a template is run as a classic
script. Attributes ending with `type` such as `data-type` were broken too.
---
 src/html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..164de44 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -17,7 +17,8 @@ fn condense_whitespace(source: &str) -> String {
 
 fn condense(source: &str) -> String {
     let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    // Only the default types are useless.
+    let type_reg = Regex::new(r#"\s+type="(?i:text/css|(text|application)/javascript)""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
         type_reg.replace_all(&caps[0], "").into_owned()
     })
-- 
2.43.0


From 3907f901086c9e8ab09ce9ab780ab5525a3a2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 30/68] fix: html: do not replace comments with a space

It added a white character between two words or elements which weren't
separated.
---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 164de44..b7b65b0 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -73,7 +73,7 @@ fn remove_comments(source: &str) -> String {
         if caps[0].replace("<!--", " ").trim().starts_with("[") {
             caps[0].to_owned()
         } else {
-            " ".to_owned()
+            String::new()
         }
     })
     .into_owned()
-- 
2.43.0


From fe97818757284dca5703a194055e46d49857cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 31/68] fix: html: keep the quotes of an attribute followed by
 a slash

`<img width="10"/>` became `<img width=10/>`, which is `width="10/"`.
---
 src/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b7b65b0..52ab390 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -88,7 +88,7 @@ fn unquote_attributes(source: &str) -> String {
     let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
     let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
     let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
-    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
+    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)"(/?)"##).unwrap();
 
     any_tag
         .replace_all(source, |caps: &Captures| {
@@ -134,6 +134,8 @@ fn unquote_attributes(source: &str) -> String {
                 }
                 tag = quotes_in_tag
                     .replace_all(&output, |caps: &Captures| match &caps[1] {
+                        // Without quotes, the slash would be a part of the value.
+                        _ if !caps[3].is_empty() => caps[0].to_owned(),
                         "width" | "height" => format!("{}={}", &caps[1], &caps[2]),
                         x => format!("{}=\"{}\"", x, &caps[2]),
                     })
-- 
2.43.0


From 5613feeb8aefcf5bf076a2024ccab4b7b0c0013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 32/68] fix: js: stop writing a regex when the writer fails

The error was only returned once the flags were written, so they could follow a truncated regex.
---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c26052f..e97418e 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -411,14 +411,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From 58c6c2e865c4a827f9baffd4654b26f95298af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 33/68] fix: css: keep the white character which ends an escape
 in an unquoted url

---
 src/css/token.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4ee1753..d95f700 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -396,7 +396,18 @@ fn get_url<'a>(
             _ if content_end_pos < pos => return None,
             // we skip next character
             '\\' => {
-                inner.next()?;
+                // A white character ends an hexadecimal escape: it is a part of it.
+                if inner.next()?.1.is_ascii_hexdigit() {
+                    let mut len = 1;
+                    while len < 6 && inner.next_if(|c| c.1.is_ascii_hexdigit()).is_some() {
+                        len += 1;
+                    }
+                    if inner.next_if(|c| c.1 == '\r').is_some() {
+                        let _ = inner.next_if(|c| c.1 == '\n');
+                    } else {
+                        let _ = inner.next_if(|c| c.1.is_ascii_whitespace());
+                    }
+                }
             }
             _ => {}
         }
-- 
2.43.0


From 89191cc1f8d9ced8a79548c23bcc0339ad988074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 34/68] fix: css: end an hexadecimal escape which is followed
 by a comment

---
 src/css/token.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index d95f700..32879d3 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -541,6 +541,13 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                             }
                         }
                         v.push(Token::Other(&source[idx..=pos]));
+                        // A comment ends an hexadecimal escape as well, but it isn't kept.
+                        if c.is_ascii_hexdigit()
+                            && !source[idx..=pos].ends_with(|c: char| c.is_ascii_whitespace())
+                            && source[pos + 1..].starts_with("/*")
+                        {
+                            v.push(Token::Other(" "));
+                        }
                     }
                 }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
-- 
2.43.0


From bf87a441f3ce3994cb3183d274aed9e7af14ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 35/68] fix: css: keep the space before a parenthesis in the
 declarations of at-rules

---
 src/css/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 32879d3..f3c91c9 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -795,7 +795,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     }
                 } else if matches!(
                     v[previous_element_index],
-                    Token::Other(_) | Token::SelectorElement(SelectorElement::Tag(_))
+                    Token::Other(_)
+                        | Token::SelectorElement(
+                            SelectorElement::Tag(_) | SelectorElement::PseudoClass(_)
+                        )
                 ) && matches!(
                     v.get(i + 1),
                     Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
-- 
2.43.0


From 097e561d45f54b5f4c45eaa1a4cf8378be3c1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 36/68] fix: js: recognize a regex after `^`, `~` and `...`

---
 src/js/token.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index e97418e..1f8de10 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -611,6 +611,18 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            Token::Other(s) if s.ends_with(['^', '~']) => break,
+            // The spread operator.
+            Token::Char(ReservedChar::Dot)
+                if v[..=back]
+                    .iter()
+                    .rev()
+                    .take_while(|t| t.eq_char(ReservedChar::Dot))
+                    .count()
+                    == 3 =>
+            {
+                break
+            }
             // `this`, `true`... are values and `x.return` is a property.
             Token::Keyword(k) if !k.is_value() && !is_property(&v[..back]) => break,
             Token::Other("void" | "delete" | "yield" | "await") if !is_property(&v[..back]) => {
-- 
2.43.0


From 2892a961d8293c91039af1556b5f4d89741e7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 37/68] fix: js: end line comments with every line terminator

---
 src/js/token.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1f8de10..fb09235 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -566,12 +566,10 @@ fn get_line_comment<'a>(
 ) -> Option<Token<'a>> {
     *start_pos += 1;
     for (pos, c) in iterator {
-        if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Backline {
-                let ret = Some(Token::Comment(&source[*start_pos..pos]));
-                *start_pos = pos;
-                return ret;
-            }
+        if matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') {
+            let ret = Some(Token::Comment(&source[*start_pos..pos]));
+            *start_pos = pos + c.len_utf8() - 1;
+            return ret;
         }
     }
     // The comment isn't followed by a backline so it ends with the source.
-- 
2.43.0


From d7e40fdb01dc4f22ea56b6e9047b662edbaba901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 38/68] fix: js: a property can be separated from its dot by a
 comment

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index fb09235..63dc9e6 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -818,7 +818,7 @@ fn get_backtick_string<'a>(
 
 fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
     for x in v.iter().rev() {
-        if x.is_white_character() {
+        if x.is_white_character() || x.is_comment() || x.is_license() {
             continue;
         }
         return Some(x);
-- 
2.43.0


From 5c2f98a0f822b2fbe10be15e986af18202e7a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 39/68] fix: js: keep the dot separated from a number preceded
 by `^` or `~`

---
 src/js/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 1b72715..7caa451 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -248,6 +248,8 @@ fn must_stay_separated(prev: &Token<'_>, next: &Token<'_>) -> bool {
         // `1 .a` isn't `1.a`.
         Token::Number(_) => next.eq_char(ReservedChar::Dot),
         Token::FloatingNumber(n) | Token::Other(n) => {
+            // `^` and `~` can be a part of the token.
+            let n = n.rsplit(['^', '~']).next().unwrap_or(n);
             n.starts_with(|c: char| c.is_ascii_digit())
                 && !n.contains('.')
                 && next.eq_char(ReservedChar::Dot)
-- 
2.43.0


From b1efb71b649acb6bef9b1f02de76599aeffd630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 40/68] fix: js: keep the space before `in~` and `instanceof~`

---
 src/js/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 63dc9e6..78f01ce 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -554,6 +554,8 @@ impl Token<'_> {
     fn requires_before(&self) -> bool {
         match *self {
             Token::Keyword(k) => k.requires_before(),
+            // `~` isn't separated from the keyword it follows.
+            Token::Other(s) => s.starts_with("in~") || s.starts_with("instanceof~"),
             _ => false,
         }
     }
-- 
2.43.0


From b4be2e1197daa8c2efbdb84bec5e4ef01c24e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 41/68] fix: js: tokenize `^` and `~` on their own

---
 src/js/token.rs | 10 +++++++---
 src/js/utils.rs |  2 --
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 78f01ce..3c30cb6 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -541,6 +541,7 @@ impl Token<'_> {
 
     fn get_required(&self) -> Option<char> {
         match *self {
+            Token::Other("^" | "~") => None,
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
@@ -554,8 +555,6 @@ impl Token<'_> {
     fn requires_before(&self) -> bool {
         match *self {
             Token::Keyword(k) => k.requires_before(),
-            // `~` isn't separated from the keyword it follows.
-            Token::Other(s) => s.starts_with("in~") || s.starts_with("instanceof~"),
             _ => false,
         }
     }
@@ -611,7 +610,7 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
-            Token::Other(s) if s.ends_with(['^', '~']) => break,
+            Token::Other("^" | "~") => break,
             // The spread operator.
             Token::Char(ReservedChar::Dot)
                 if v[..=back]
@@ -1066,6 +1065,10 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
             }
             start = pos + 1;
+        } else if matches!(c, '^' | '~') {
+            fill_other(source, &mut v, start, pos);
+            v.push(Token::Other(&source[pos..=pos]));
+            start = pos + 1;
         }
     }
     Ok(Tokens(v))
@@ -1105,6 +1108,7 @@ macro_rules! tokens_writer {
             }
             write!($w, "{}", tokens[i])?;
             if let Some(c) = match tokens[i] {
+                Token::Other("^" | "~") => None,
                 Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
                     tokens[i + 1].get_required()
                 }
diff --git a/src/js/utils.rs b/src/js/utils.rs
index 7caa451..1b72715 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -248,8 +248,6 @@ fn must_stay_separated(prev: &Token<'_>, next: &Token<'_>) -> bool {
         // `1 .a` isn't `1.a`.
         Token::Number(_) => next.eq_char(ReservedChar::Dot),
         Token::FloatingNumber(n) | Token::Other(n) => {
-            // `^` and `~` can be a part of the token.
-            let n = n.rsplit(['^', '~']).next().unwrap_or(n);
             n.starts_with(|c: char| c.is_ascii_digit())
                 && !n.contains('.')
                 && next.eq_char(ReservedChar::Dot)
-- 
2.43.0


From 476b1c1389869813cc4992e6ea3c3b71458bca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 42/68] fix: js: a keyword after `...` isn't a property

---
 src/js/token.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 3c30cb6..9282e94 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -579,9 +579,16 @@ fn get_line_comment<'a>(
     ret
 }
 
+const SPREAD: [Token<'_>; 3] = [
+    Token::Char(ReservedChar::Dot),
+    Token::Char(ReservedChar::Dot),
+    Token::Char(ReservedChar::Dot),
+];
+
 fn is_property(v: &[Token<'_>]) -> bool {
-    match first_useful(v) {
-        Some(t) => t.eq_char(ReservedChar::Dot),
+    match last_useful(v) {
+        // `...` isn't followed by a property.
+        Some(pos) => v[pos].eq_char(ReservedChar::Dot) && !v[..=pos].ends_with(&SPREAD),
         None => false,
     }
 }
@@ -611,17 +618,7 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
             Token::Other("^" | "~") => break,
-            // The spread operator.
-            Token::Char(ReservedChar::Dot)
-                if v[..=back]
-                    .iter()
-                    .rev()
-                    .take_while(|t| t.eq_char(ReservedChar::Dot))
-                    .count()
-                    == 3 =>
-            {
-                break
-            }
+            Token::Char(ReservedChar::Dot) if v[..=back].ends_with(&SPREAD) => break,
             // `this`, `true`... are values and `x.return` is a property.
             Token::Keyword(k) if !k.is_value() && !is_property(&v[..back]) => break,
             Token::Other("void" | "delete" | "yield" | "await") if !is_property(&v[..back]) => {
@@ -817,14 +814,9 @@ fn get_backtick_string<'a>(
     Ok(None)
 }
 
-fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
-    for x in v.iter().rev() {
-        if x.is_white_character() || x.is_comment() || x.is_license() {
-            continue;
-        }
-        return Some(x);
-    }
-    None
+fn last_useful(v: &[Token<'_>]) -> Option<usize> {
+    v.iter()
+        .rposition(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
 }
 
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
-- 
2.43.0


From f6fd15e4b3602a2f3ea19a07ace94289fd1d200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 43/68] fix: js: an escape is a part of the identifier it is in

---
 src/js/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 9282e94..6ed6014 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -974,7 +974,12 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 break;
             }
         };
-        if let Ok(c) = ReservedChar::try_from(c) {
+        if c == '\\' {
+            // An unicode escape is a part of the identifier it is in.
+            if source[pos..].starts_with("\\u{") {
+                let _ = iterator.find(|(_, c)| *c == '}');
+            }
+        } else if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-- 
2.43.0


From 2609af3fca99f277d996b2ea3ad174d116b896bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 44/68] fix: js: recognize every white character

---
 src/js/token.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6ed6014..27e9675 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1062,6 +1062,13 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
             }
             start = pos + 1;
+        } else if c == '\u{feff}' || (c != '\u{85}' && c.is_whitespace()) {
+            fill_other(source, &mut v, start, pos);
+            v.push(Token::Char(match c {
+                '\u{2028}' | '\u{2029}' => ReservedChar::Backline,
+                _ => ReservedChar::Space,
+            }));
+            start = pos + c.len_utf8();
         } else if matches!(c, '^' | '~') {
             fill_other(source, &mut v, start, pos);
             v.push(Token::Other(&source[pos..=pos]));
-- 
2.43.0


From eaa2f818c253ba1e0ca2e7a98cfd415c8281ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 45/68] fix: js: any white character can follow the dot of a
 number

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 27e9675..477efa5 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -983,7 +983,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-                    if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
+                    if !x.1.is_whitespace() && !"0123456789,;<>/*&|{}[]-+=~%^:!".contains(x.1) {
                         fill_other(source, &mut v, start, pos);
                         start = pos;
                         cont = false;
-- 
2.43.0


From 1b2d4c6964447d84f739ba13ed2ba41fc16acd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 46/68] fix: js: the integer part of a number can have any
 length

---
 src/js/token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 477efa5..61065cd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -896,7 +896,9 @@ fn handle_equal_sign(v: &mut Vec<Token<'_>>, c: ReservedChar) -> bool {
 fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, source: &str) -> bool {
     if source[start..pos].find('.').is_some() {
         return false;
-    } else if u64::from_str(&source[start..pos]).is_ok() {
+    } else if source[start..pos].starts_with(|c: char| c.is_ascii_digit())
+        && (source[start..pos].bytes()).all(|b| b.is_ascii_digit() || b == b'_')
+    {
         return true;
     } else if let Some((_, x)) = iterator.peek() {
         return x as u8 >= b'0' && x as u8 <= b'9';
-- 
2.43.0


From 6a347aebb1683433fa232e953f94d1d6d117db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 47/68] fix: js: no space after the hashbang line

---
 src/js/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 61065cd..16c6455 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1115,6 +1115,8 @@ macro_rules! tokens_writer {
             write!($w, "{}", tokens[i])?;
             if let Some(c) = match tokens[i] {
                 Token::Other("^" | "~") => None,
+                // The hashbang line.
+                Token::Other(o) if o.ends_with(['\n', '\r']) => None,
                 Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
                     tokens[i + 1].get_required()
                 }
-- 
2.43.0


From 8db5654f10f828897b71523178ecb2921c02c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 48/68] fix: js: extend a const array instead of declaring it
 twice

---
 src/js/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 1b72715..a123017 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -483,7 +483,7 @@ pub(crate) fn get_array<'a>(
             }
         } else {
             match tokens[pos] {
-                Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
+                Token::Keyword(Keyword::Const | Keyword::Let | Keyword::Var) => {
                     looking_for_var = true;
                 }
                 _ => {}
-- 
2.43.0


From 966a47b81c7b14c44397a0f728fabf8c83fbd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 49/68] fix: js: do not use an array before its declaration

---
 src/js/tools.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index b567653..f244da5 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -445,7 +445,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         }
 
         let mut array_pos_str = array_pos.to_string();
-        for pos in 0..tokens.len() {
+        // An existing array cannot be used before its declaration.
+        for pos in end_bracket..tokens.len() {
             if to_ignore.contains(&pos) {
                 continue;
             }
-- 
2.43.0


From e2cc96b3704642ce3233b8de51d5ce4b8d8439e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 50/68] fix: js: do not use an existing variable before its
 declaration

---
 src/js/tools.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index f244da5..98dbda0 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -271,7 +271,8 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                     continue;
                 }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
-                    if pos != *string_pos {
+                    // An existing variable cannot be used before its declaration.
+                    if pos > *string_pos {
                         to_replace.push((pos, *var_pos));
                     }
                     continue;
-- 
2.43.0


From bfb70cb016262f962b3dae5834c53686810c161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 51/68] fix: js: only reuse the variables whose whole value is
 the string

---
 src/js/tools.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 98dbda0..1ee0de7 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -226,7 +226,14 @@ fn get_variables_name<'a>(
                     }
                     ret.insert(var_name);
                 }
-                if let Some(s) = tokens[value_pos].get_string() {
+                // The string must be the whole value, not the start of an expression.
+                let next = tokens[value_pos + 1..]
+                    .iter()
+                    .find(|t| !t.is_comment() && !t.is_white_character());
+                let is_whole = next.is_none_or(|t| {
+                    t.eq_char(ReservedChar::Comma) || t.eq_char(ReservedChar::SemiColon)
+                });
+                if let (Some(s), true) = (tokens[value_pos].get_string(), is_whole) {
                     variables.insert(s, (var_pos, value_pos));
                 }
             }
-- 
2.43.0


From 0d6fd79ef634387e891c4999c21d61e39490c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 52/68] fix: js: declare the aggregated strings after the
 hashbang

---
 src/js/tools.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 1ee0de7..b497dd6 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -243,6 +243,12 @@ fn get_variables_name<'a>(
     (ret, variables)
 }
 
+/// The declarations are added at the start of the source, after its hashbang if it has one.
+fn code_start(tokens: &Tokens<'_>) -> usize {
+    let is_hashbang = |t: &Token<'_>| matches!(t, Token::Other(s) if s.starts_with("#!"));
+    tokens.first().is_some_and(is_hashbang).into()
+}
+
 fn aggregate_strings_inner<'a, 'b: 'a>(
     mut tokens: Tokens<'a>,
     separation_token: Option<Token<'b>>,
@@ -344,8 +350,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
     if let Some(token) = separation_token {
         new_vars.push(token);
     }
-    new_vars.append(&mut tokens.0);
-    Tokens(new_vars)
+    let start = code_start(&tokens);
+    tokens.0.splice(start..start, new_vars);
+    tokens
 }
 
 /// Aggregate litteral strings. For instance, if the string litteral "Oh look over there!"
@@ -506,15 +513,16 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));
 
         if need_recreate && !validated.is_empty() {
+            let start = code_start(&tokens);
             if let Some(token) = separation_token {
-                to_insert.push((0, token));
+                to_insert.push((start, token));
             }
-            to_insert.push((0, Token::Char(ReservedChar::SemiColon)));
-            to_insert.push((0, Token::Char(ReservedChar::CloseBracket)));
-            to_insert.push((0, Token::Char(ReservedChar::OpenBracket)));
-            to_insert.push((0, Token::CreatedVarDecl(format!("var {array_name}="))));
+            to_insert.push((start, Token::Char(ReservedChar::SemiColon)));
+            to_insert.push((start, Token::Char(ReservedChar::CloseBracket)));
+            to_insert.push((start, Token::Char(ReservedChar::OpenBracket)));
+            to_insert.push((start, Token::CreatedVarDecl(format!("var {array_name}="))));
 
-            end_bracket = 2;
+            end_bracket = start + 2;
         }
 
         let mut iter = validated.iter().peekable();
-- 
2.43.0


From b4a792009c9099150541e0495e97a69fbf25d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 53/68] fix: js: only the declared name and its value are a
 variable's

---
 src/js/utils.rs | 88 +++++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 61 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index a123017..80691db 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -173,71 +173,37 @@ pub fn get_variable_name_and_value_positions<'a>(
     tokens: &'a Tokens<'a>,
     pos: usize,
 ) -> Option<(usize, Option<usize>)> {
-    if pos >= tokens.len() {
-        return None;
-    }
-    let mut tmp = pos;
-    match tokens[pos] {
-        Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
-            tmp += 1;
-        }
-        Token::Other(_) if pos > 0 => {
-            let mut pos = pos - 1;
-            while pos > 0 {
-                if tokens[pos].is_comment() || tokens[pos].is_white_character() {
-                    pos -= 1;
-                } else if tokens[pos] == Token::Char(ReservedChar::Comma)
-                    || tokens[pos] == Token::Keyword(Keyword::Let)
-                    || tokens[pos] == Token::Keyword(Keyword::Var)
-                {
-                    break;
-                } else {
-                    return None;
-                }
-            }
-        }
+    let is_useful = |t: &Token<'_>| !t.is_comment() && !t.is_license() && !t.is_white_character();
+    let next = |start: usize| (start..tokens.len()).find(|p| is_useful(&tokens[*p]));
+
+    let name_pos = match *tokens.get(pos)? {
+        Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => next(pos + 1)?,
+        Token::Other(_) => match tokens[..pos].iter().rfind(|t| is_useful(t))? {
+            Token::Char(ReservedChar::Comma)
+            | Token::Keyword(Keyword::Let)
+            | Token::Keyword(Keyword::Var) => pos,
+            _ => return None,
+        },
         _ => return None,
+    };
+    if !tokens[name_pos].is_other() {
+        return None;
     }
-    while tmp < tokens.len() {
-        if tokens[tmp].is_other() {
-            let mut tmp2 = tmp + 1;
-            while tmp2 < tokens.len() {
-                if tokens[tmp2] == Token::Operation(Operation::Equal) {
-                    tmp2 += 1;
-                    while tmp2 < tokens.len() {
-                        let token = &tokens[tmp2];
-                        if token.is_string()
-                            || token.is_other()
-                            || token.is_regex()
-                            || token.is_number()
-                            || token.is_floating_number()
-                        {
-                            return Some((tmp, Some(tmp2)));
-                        } else if !tokens[tmp2].is_comment() && !tokens[tmp2].is_white_character() {
-                            break;
-                        }
-                        tmp2 += 1;
-                    }
-                    break;
-                } else if matches!(
-                    tokens[tmp2].get_char(),
-                    Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
-                ) {
-                    return Some((tmp, None));
-                } else if !(tokens[tmp2].is_comment()
-                    || tokens[tmp2].is_white_character()
-                        && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
-                {
-                    break;
-                }
-                tmp2 += 1;
-            }
-        } else {
-            // We don't care about syntax errors.
+    let end_pos = next(name_pos + 1)?;
+    match tokens[end_pos] {
+        Token::Char(ReservedChar::Comma | ReservedChar::SemiColon) => Some((name_pos, None)),
+        Token::Operation(Operation::Equal) => {
+            let value_pos = next(end_pos + 1)?;
+            let value = &tokens[value_pos];
+            (value.is_string()
+                || value.is_other()
+                || value.is_regex()
+                || value.is_number()
+                || value.is_floating_number())
+            .then_some((name_pos, Some(value_pos)))
         }
-        tmp += 1;
+        _ => None,
     }
-    None
 }
 
 /// Returns true if the two tokens cannot be written next to each other if they weren't already.
-- 
2.43.0


From cd37ab577e0ff674677c369a8ed4d2dae6f92929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 54/68] fix: js: a license can be anywhere in the declaration
 of an array

---
 src/js/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 80691db..4eda328 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -397,6 +397,7 @@ pub(crate) fn get_array<'a>(
     tokens: &'a Tokens<'a>,
     array_name: &str,
 ) -> Option<(Vec<usize>, usize)> {
+    let is_useless = |t: &Token<'_>| t.is_comment() || t.is_license() || t.is_white_character();
     let mut ret = Vec::new();
 
     let mut looking_for_var = false;
@@ -414,7 +415,7 @@ pub(crate) fn get_array<'a>(
                     }
                 }
                 ref s => {
-                    looking_for_var = s.is_comment() || s.is_white_character();
+                    looking_for_var = is_useless(s);
                 }
             }
         } else if looking_for_equal {
@@ -424,7 +425,7 @@ pub(crate) fn get_array<'a>(
                     looking_for_array_start = true;
                 }
                 ref s => {
-                    looking_for_equal = s.is_comment() || s.is_white_character();
+                    looking_for_equal = is_useless(s);
                 }
             }
         } else if looking_for_array_start {
@@ -434,7 +435,7 @@ pub(crate) fn get_array<'a>(
                     getting_values = true;
                 }
                 ref s => {
-                    looking_for_array_start = s.is_comment() || s.is_white_character();
+                    looking_for_array_start = is_useless(s);
                 }
             }
         } else if getting_values {
@@ -442,7 +443,7 @@ pub(crate) fn get_array<'a>(
                 Token::Char(ReservedChar::CloseBracket) => {
                     return Some((ret, pos));
                 }
-                s if s.is_comment() || s.is_white_character() => {}
+                s if is_useless(s) => {}
                 _ => {
                     ret.push(pos);
                 }
-- 
2.43.0


From 26985cdae62170088ac938f9d185122600479558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 55/68] fix: js: no hole after the trailing comma of an array

---
 src/js/tools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index b497dd6..d9e8e50 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -459,6 +459,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             array_pos += 1;
         }
 
+        let first_new = array_pos;
         let mut array_pos_str = array_pos.to_string();
         // An existing array cannot be used before its declaration.
         for pos in end_bracket..tokens.len() {
@@ -525,8 +526,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             end_bracket = start + 2;
         }
 
-        let mut iter = validated.iter().peekable();
-        while let Some((array_pos, s)) = iter.next() {
+        for (array_pos, s) in validated.iter() {
             let (_, ref tokens_pos, create_array_entry) = strs[*s];
             let array_index = Token::CreatedVar(format!("{array_name}[{array_pos}]"));
             for token in tokens_pos.iter() {
@@ -541,7 +541,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 _ => format!("\"{}\"", *s),
             };
             to_insert.push((end_bracket, Token::CreatedVar(value)));
-            if iter.peek().is_none() && !need_comma {
+            if *array_pos == first_new && !need_comma {
                 continue;
             }
             to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
-- 
2.43.0


From da39cf0c8370aec3b1e6378fdf77ae5544219be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 56/68] fix: js: the backline after a line comment isn't a part
 of it

---
 src/js/token.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 16c6455..8390b1a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -566,12 +566,14 @@ fn get_line_comment<'a>(
     start_pos: &mut usize,
 ) -> Option<Token<'a>> {
     *start_pos += 1;
-    for (pos, c) in iterator {
+    while let Some((pos, c)) = iterator.peek() {
+        // The backline isn't a part of the comment.
         if matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') {
             let ret = Some(Token::Comment(&source[*start_pos..pos]));
-            *start_pos = pos + c.len_utf8() - 1;
+            *start_pos = pos - 1;
             return ret;
         }
+        iterator.next();
     }
     // The comment isn't followed by a backline so it ends with the source.
     let ret = Some(Token::Comment(&source[*start_pos..]));
-- 
2.43.0


From d121c33b67f6aee1173452a79ddbf2943b598006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 57/68] fix: css: math functions are minified the same way
 twice

Directly after a colon, calc looks like a pseudo class; a comment at the
start of an argument became a useless space.
---
 src/css/token.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index f3c91c9..4f8722a 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -750,7 +750,11 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
+        // Directly after a colon, it looks like a pseudo class.
+        if matches!(
+            v[i],
+            Token::Other("calc") | Token::SelectorElement(SelectorElement::PseudoClass("calc"))
+        ) {
             is_in_calc = true;
         } else if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
@@ -830,6 +834,16 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
+                } else if depth > 0
+                    && (v[previous_element_index].is_a_license()
+                        || matches!(
+                            v[previous_element_index].get_char(),
+                            Some(ReservedChar::OpenParenthese | ReservedChar::Comma)
+                        ))
+                {
+                    // nothing to separate at the start of an argument,
+                    // and a license ends with a backline
+                    retain = false;
                 } else if !selectors[i]
                     && depth > 0
                     && v[i].is_useless()
-- 
2.43.0


From 7e32c344d7df1789b1a9f8fdabfcb8529783a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 58/68] fix: html: a no-break space isn't white space

---
 src/html.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 52ab390..16cdb04 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,16 +2,21 @@
 
 use regex::{Captures, Regex};
 
+// A no-break space isn't a white character which can be removed.
+fn trim(source: &str) -> &str {
+    source.trim_matches(|c: char| c.is_ascii_whitespace())
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(r">\s+<").unwrap();
+        let re = Regex::new(r">[ \t\r\n\f]+<").unwrap();
         let source = re.replace_all(source, "> <").into_owned();
-        let re = Regex::new(r"\s{2,}|[\r\n]").unwrap();
+        let re = Regex::new(r"[ \t\r\n\f]{2,}|[\r\n]").unwrap();
         re.replace_all(&source, " ").into_owned()
     } else {
-        source.trim().to_owned()
+        trim(source).to_owned()
     }
 }
 
@@ -82,7 +87,7 @@ fn remove_comments(source: &str) -> String {
 fn unquote_attributes(source: &str) -> String {
     // Some attributes like width, height, etc... don't need quotes.
     let any_tag = Regex::new(r"<\w.*?>").unwrap();
-    let extra_spaces = Regex::new(r" \s+|\s +").unwrap();
+    let extra_spaces = Regex::new(r" [ \t\r\n\f]+|[ \t\r\n\f] +").unwrap();
     let between_words = Regex::new(r"\w\s+\w").unwrap();
     let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
     let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
@@ -147,8 +152,7 @@ fn unquote_attributes(source: &str) -> String {
                 }
             }
         })
-        .trim()
-        .to_owned()
+        .into_owned()
 }
 
 /// Returns a minified version of the provided HTML source.
@@ -157,7 +161,7 @@ pub fn minify(source: &str) -> String {
     let source = condense(&source);
     let source = clean_unneeded_tags(&source);
     let source = condense_whitespace(&source);
-    unquote_attributes(&source).trim().to_owned()
+    trim(&unquote_attributes(&source)).to_owned()
 }
 
 #[test]
-- 
2.43.0


From 2a8b2b2b543d2bebbee55fe257d33eeb1ccad2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 59/68] fix: html: only remove the default type of the element
 itself

---
 src/html.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 16cdb04..52280c5 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -21,10 +21,15 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
+    let re = Regex::new(r"<(style|script)[ \t\r\n\f].*?>").unwrap();
     // Only the default types are useless.
-    let type_reg = Regex::new(r#"\s+type="(?i:text/css|(text|application)/javascript)""#).unwrap();
+    let style_type = Regex::new(r#"\s+type="(?i:text/css)""#).unwrap();
+    let script_type = Regex::new(r#"\s+type="(?i:(text|application)/javascript)""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
+        let type_reg = match &caps[1] {
+            "style" => &style_type,
+            _ => &script_type,
+        };
         type_reg.replace_all(&caps[0], "").into_owned()
     })
     .into_owned()
-- 
2.43.0


From dd720b830178c38290a44c5a496fb19bbb37c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 60/68] fix: html: neither in the values of the attributes

---
 src/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 52280c5..84f949a 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -96,7 +96,7 @@ fn unquote_attributes(source: &str) -> String {
     let between_words = Regex::new(r"\w\s+\w").unwrap();
     let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
     let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
-    let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
+    let extra_spaces2 = Regex::new(r##"["'][ \t\r\n\f]{2,}\w+="##).unwrap();
     let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
     let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)"(/?)"##).unwrap();
 
@@ -138,7 +138,7 @@ fn unquote_attributes(source: &str) -> String {
                             } else {
                                 format!("{}", c)
                             },
-                            caps.as_str()[1..].trim_start()
+                            trim(&caps.as_str()[1..])
                         ),
                     );
                 }
-- 
2.43.0


From 5dea6cbffce320eeacd51279d94dcfcd038f67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 61/68] fix: html: where comments end and which ones are
 conditional

---
 src/html.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 84f949a..96afdde 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -78,9 +78,11 @@ fn clean_unneeded_tags(source: &str) -> String {
 
 fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
-    let re = Regex::new("<!--(.|\n)*?-->").unwrap();
+    let re = Regex::new("<!--(-?>|(.|\n)*?--!?>)").unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if caps[0].replace("<!--", " ").trim().starts_with("[") {
+        // A revealed conditional comment ends with "<!--<![endif]-->".
+        let content = trim(&caps[1]);
+        if content.starts_with("[") || content.starts_with("<![endif]") {
             caps[0].to_owned()
         } else {
             String::new()
-- 
2.43.0


From 778f71b9a12ea2c00fdc4be8d76ae55ac918cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 62/68] fix: cli: the outputs stay in the given directory

---
 src/cli.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ae05029..9812c4f 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,7 +2,7 @@ use std::convert::From;
 use std::env;
 use std::fs::{File, OpenOptions};
 use std::io::{self, Read, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use clap::builder::PossibleValue;
 use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
@@ -165,9 +165,12 @@ fn write_out_file(
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        // Pushing an absolute path would replace the output directory.
+                        // Pushing an absolute path would replace the output directory, and ".."
+                        // would leave it.
+                        let is_outside = file_path.is_absolute()
+                            || file_path.components().any(|c| c == Component::ParentDir);
                         match file_path.file_name() {
-                            Some(name) if file_path.is_absolute() => op.push(name),
+                            Some(name) if is_outside => op.push(name),
                             _ => op.push(file_path),
                         }
                         op.set_extension(format!("min.{}", file_ext.as_str()));
-- 
2.43.0


From 1202f6332869ed18d7b639da8100c77aff566e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:08 +0000
Subject: [PATCH 63/68] fix: don't scan the rest of the line again for each
 regex class which isn't closed

---
 src/js/token.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8390b1a..c594175 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -644,6 +644,10 @@ fn get_regex<'a>(
     }
     iterator.start_save();
     let mut in_class = false;
+    // A slash met by a search which already failed was in a class: the next bracket leads to the
+    // same failure.
+    let no_class = *start_pos < iterator.no_regex_until;
+    let mut end = source.len();
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -652,7 +656,10 @@ fn get_regex<'a>(
         }
         if let Ok(c) = ReservedChar::try_from(c) {
             // A slash doesn't end the regex inside a class.
-            if c == ReservedChar::OpenBracket {
+            if no_class && matches!(c, ReservedChar::OpenBracket | ReservedChar::CloseBracket) {
+                end = pos;
+                break;
+            } else if c == ReservedChar::OpenBracket {
                 in_class = true;
             } else if c == ReservedChar::CloseBracket {
                 in_class = false;
@@ -678,11 +685,13 @@ fn get_regex<'a>(
                 iterator.drop_save();
                 return ret;
             } else if c == ReservedChar::Backline {
+                end = pos;
                 break;
             }
         }
     }
     iterator.stop_save();
+    iterator.no_regex_until = iterator.no_regex_until.max(end);
     None
 }
 
@@ -912,6 +921,8 @@ struct MyPeekable<'a> {
     inner: CharIndices<'a>,
     peeked: Option<(usize, char)>,
     saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
+    /// The end of the line in which no end was found for a regex.
+    no_regex_until: usize,
 }
 
 impl<'a> MyPeekable<'a> {
@@ -920,6 +931,7 @@ impl<'a> MyPeekable<'a> {
             inner: indices,
             peeked: None,
             saved: None,
+            no_regex_until: 0,
         }
     }
 
-- 
2.43.0


From 5e501402bb7f8269ec56cf0ce0c012993e46ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 64/68] fix: recognize a regex after the parenthesis of a
 statement and after the operator of

---
 src/js/token.rs | 81 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c594175..9eeec22 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -595,11 +595,53 @@ fn is_property(v: &[Token<'_>]) -> bool {
     }
 }
 
+/// What a parenthesis comes after.
+#[derive(Clone, Copy, PartialEq, Eq)]
+enum Before {
+    For,
+    /// The other statements: `if`, `while` and `with`.
+    Statement,
+    Other,
+}
+
+impl Before {
+    fn new(v: &[Token<'_>]) -> Before {
+        let Some(mut pos) = last_useful(v) else {
+            return Before::Other;
+        };
+        if v[pos] == Token::Other("await") {
+            match last_useful(&v[..pos]) {
+                Some(p) if v[p] == Token::Keyword(Keyword::For) => pos = p,
+                _ => return Before::Other,
+            }
+        }
+        let before = match v[pos] {
+            Token::Keyword(Keyword::For) => Before::For,
+            Token::Keyword(Keyword::If | Keyword::While) | Token::Other("with") => {
+                Before::Statement
+            }
+            _ => return Before::Other,
+        };
+        if is_property(&v[..pos]) {
+            Before::Other
+        } else {
+            before
+        }
+    }
+}
+
+/// The parentheses which aren't closed, and the last one which was.
+struct Parentheses {
+    open: Vec<Before>,
+    closed: Before,
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
     start_pos: &mut usize,
     v: &[Token<'_>],
+    parentheses: &Parentheses,
 ) -> Option<Token<'a>> {
     let mut back = v.len();
     while back > 0 {
@@ -621,6 +663,15 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Ampersand) => break,
             Token::Other("^" | "~") => break,
             Token::Char(ReservedChar::Dot) if v[..=back].ends_with(&SPREAD) => break,
+            // It starts the statement which comes after `if (...)`, `for (...)`...
+            Token::Char(ReservedChar::CloseParenthese) if parentheses.closed != Before::Other => {
+                break
+            }
+            Token::Other("of")
+                if parentheses.open.last() == Some(&Before::For) && ends_with_of(&v[..=back]) =>
+            {
+                break
+            }
             // `this`, `true`... are values and `x.return` is a property.
             Token::Keyword(k) if !k.is_value() && !is_property(&v[..back]) => break,
             Token::Other("void" | "delete" | "yield" | "await") if !is_property(&v[..back]) => {
@@ -830,6 +881,25 @@ fn last_useful(v: &[Token<'_>]) -> Option<usize> {
         .rposition(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
 }
 
+/// In the header of a `for`, tells if the last token is the operator `of` or just a name.
+fn ends_with_of(v: &[Token<'_>]) -> bool {
+    let mut is_of = false;
+    let mut end = v.len();
+    while let Some(pos) = last_useful(&v[..end]) {
+        match v[pos] {
+            Token::Other("of") if !is_property(&v[..pos]) => is_of = !is_of,
+            Token::Other("^" | "~" | "void" | "delete" | "yield" | "await") => return !is_of,
+            Token::Other(_)
+            | Token::Char(ReservedChar::CloseBracket | ReservedChar::CloseCurlyBrace) => {
+                return is_of
+            }
+            _ => return !is_of,
+        }
+        end = pos;
+    }
+    !is_of
+}
+
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
         // `usize` cannot represent leading zeros (`010` is an octal number) and `f64` accepts some
@@ -971,6 +1041,10 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut v = Vec::with_capacity(1000);
     let mut start = 0;
     let mut iterator = MyPeekable::new(source.char_indices());
+    let mut parentheses = Parentheses {
+        open: Vec::new(),
+        closed: Before::Other,
+    };
 
     if source.starts_with("#!") {
         // The hashbang ends with the line, backline included, whatever it contains.
@@ -1036,7 +1110,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         && iterator.peek().unwrap().1 != '/'
                         && iterator.peek().unwrap().1 != '*' =>
                 {
-                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
+                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v, &parentheses) {
                         v.push(r);
                     } else {
                         v.push(Token::Operation(Operation::Divide));
@@ -1068,6 +1142,11 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
                 _ if handle_equal_sign(&mut v, c) => {}
                 _ => {
+                    if c == ReservedChar::OpenParenthese {
+                        parentheses.open.push(Before::new(&v));
+                    } else if c == ReservedChar::CloseParenthese {
+                        parentheses.closed = parentheses.open.pop().unwrap_or(Before::Other);
+                    }
                     if let Ok(o) = Operation::try_from(c) {
                         v.push(Token::Operation(o));
                     } else if let Ok(o) = Condition::try_from(c) {
-- 
2.43.0


From f6bf1713ffa64769bd319aca91ced28d52bc4fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 65/68] fix: remove the default type of a style or script tag
 which spans several lines

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 96afdde..dbb5d7e 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -21,7 +21,7 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)[ \t\r\n\f].*?>").unwrap();
+    let re = Regex::new(r"<(style|script)[ \t\r\n\f](?s:.*?)>").unwrap();
     // Only the default types are useless.
     let style_type = Regex::new(r#"\s+type="(?i:text/css)""#).unwrap();
     let script_type = Regex::new(r#"\s+type="(?i:(text|application)/javascript)""#).unwrap();
-- 
2.43.0


From 8f6417b3afb91c6dd61fc3c4cd31fc2bf9c7292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 66/68] fix: a name calc without parentheses does not start a
 calculation

---
 src/css/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4f8722a..6dc22f4 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -754,7 +754,8 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         if matches!(
             v[i],
             Token::Other("calc") | Token::SelectorElement(SelectorElement::PseudoClass("calc"))
-        ) {
+        ) && v.get(i + 1) == Some(&Token::Char(ReservedChar::OpenParenthese))
+        {
             is_in_calc = true;
         } else if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
-- 
2.43.0


From 161cc28ee7fd1b63c880148d2e5289694e15a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 67/68] fix: recognize a regular expression after a block or
 the declaration of a function

---
 src/js/token.rs | 116 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 96 insertions(+), 20 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 9eeec22..a938999 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -595,22 +595,55 @@ fn is_property(v: &[Token<'_>]) -> bool {
     }
 }
 
-/// What a parenthesis comes after.
+/// What a parenthesis or a curly brace comes after.
 #[derive(Clone, Copy, PartialEq, Eq)]
 enum Before {
     For,
-    /// The other statements: `if`, `while` and `with`.
+    /// `if`, `while` and `with`: their parentheses come before a statement.
     Statement,
+    /// What comes before a block: `switch (...)`, `catch (...)`, the declaration of a function...
+    Block,
     Other,
 }
 
-impl Before {
-    fn new(v: &[Token<'_>]) -> Before {
+/// The parentheses and the curly braces which aren't closed, and the last one which was.
+struct Delimiters {
+    open: Vec<Before>,
+    closed: Before,
+}
+
+impl Delimiters {
+    /// Returns true if what comes after those tokens starts a statement.
+    fn is_statement(&self, v: &[Token<'_>]) -> bool {
+        let Some(pos) = last_useful(v) else {
+            return true;
+        };
+        match v[pos] {
+            Token::Char(ReservedChar::SemiColon) => self.open.last() != Some(&Before::For),
+            Token::Char(ReservedChar::OpenCurlyBrace) => true,
+            Token::Other("export") => !is_property(&v[..pos]),
+            // The hashbang is a whole line.
+            Token::Other(o) => o.starts_with("#!"),
+            Token::Char(ReservedChar::CloseCurlyBrace) => self.closed == Before::Block,
+            Token::Char(ReservedChar::CloseParenthese) => {
+                matches!(self.closed, Before::For | Before::Statement)
+            }
+            Token::Keyword(Keyword::Do | Keyword::Else) => !is_property(&v[..pos]),
+            _ => false,
+        }
+    }
+
+    fn open_parenthese(&mut self, v: &[Token<'_>]) {
+        self.open.push(self.before_parenthese(v));
+    }
+
+    fn before_parenthese(&self, v: &[Token<'_>]) -> Before {
         let Some(mut pos) = last_useful(v) else {
             return Before::Other;
         };
+        let previous = |pos: usize| last_useful(&v[..pos]);
         if v[pos] == Token::Other("await") {
-            match last_useful(&v[..pos]) {
+            match previous(pos) {
                 Some(p) if v[p] == Token::Keyword(Keyword::For) => pos = p,
                 _ => return Before::Other,
             }
@@ -620,6 +653,27 @@ impl Before {
             Token::Keyword(Keyword::If | Keyword::While) | Token::Other("with") => {
                 Before::Statement
             }
+            Token::Keyword(Keyword::Catch | Keyword::Switch) => Before::Block,
+            Token::Other(_) => {
+                // The declaration of a function, which has a name.
+                let mut function = previous(pos);
+                if let Some(p) = function.filter(|p| v[*p].eq_operation(Operation::Multiply)) {
+                    function = previous(p);
+                }
+                match function {
+                    Some(mut p) if v[p] == Token::Keyword(Keyword::Function) => {
+                        if let Some(a) = previous(p).filter(|a| v[*a] == Token::Other("async")) {
+                            p = a;
+                        }
+                        return if self.is_statement(&v[..p]) {
+                            Before::Block
+                        } else {
+                            Before::Other
+                        };
+                    }
+                    _ => return Before::Other,
+                }
+            }
             _ => return Before::Other,
         };
         if is_property(&v[..pos]) {
@@ -628,12 +682,28 @@ impl Before {
             before
         }
     }
-}
 
-/// The parentheses which aren't closed, and the last one which was.
-struct Parentheses {
-    open: Vec<Before>,
-    closed: Before,
+    fn open_curly_brace(&mut self, v: &[Token<'_>]) {
+        let is_block = self.is_statement(v)
+            || match last_useful(v).map(|pos| (pos, &v[pos])) {
+                Some((_, Token::Char(ReservedChar::CloseParenthese))) => {
+                    self.closed == Before::Block
+                }
+                Some((pos, Token::Keyword(Keyword::Try | Keyword::Catch | Keyword::Finally))) => {
+                    !is_property(&v[..pos])
+                }
+                _ => false,
+            };
+        self.open.push(if is_block {
+            Before::Block
+        } else {
+            Before::Other
+        });
+    }
+
+    fn close(&mut self) {
+        self.closed = self.open.pop().unwrap_or(Before::Other);
+    }
 }
 
 fn get_regex<'a>(
@@ -641,7 +711,7 @@ fn get_regex<'a>(
     iterator: &mut MyPeekable<'_>,
     start_pos: &mut usize,
     v: &[Token<'_>],
-    parentheses: &Parentheses,
+    delimiters: &Delimiters,
 ) -> Option<Token<'a>> {
     let mut back = v.len();
     while back > 0 {
@@ -663,12 +733,15 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Ampersand) => break,
             Token::Other("^" | "~") => break,
             Token::Char(ReservedChar::Dot) if v[..=back].ends_with(&SPREAD) => break,
-            // It starts the statement which comes after `if (...)`, `for (...)`...
-            Token::Char(ReservedChar::CloseParenthese) if parentheses.closed != Before::Other => {
+            // It starts a statement.
+            Token::Char(ReservedChar::CloseParenthese | ReservedChar::CloseCurlyBrace)
+            | Token::Other(_)
+                if delimiters.is_statement(&v[..=back]) =>
+            {
                 break
             }
             Token::Other("of")
-                if parentheses.open.last() == Some(&Before::For) && ends_with_of(&v[..=back]) =>
+                if delimiters.open.last() == Some(&Before::For) && ends_with_of(&v[..=back]) =>
             {
                 break
             }
@@ -1041,7 +1114,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut v = Vec::with_capacity(1000);
     let mut start = 0;
     let mut iterator = MyPeekable::new(source.char_indices());
-    let mut parentheses = Parentheses {
+    let mut delimiters = Delimiters {
         open: Vec::new(),
         closed: Before::Other,
     };
@@ -1110,7 +1183,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         && iterator.peek().unwrap().1 != '/'
                         && iterator.peek().unwrap().1 != '*' =>
                 {
-                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v, &parentheses) {
+                    if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v, &delimiters) {
                         v.push(r);
                     } else {
                         v.push(Token::Operation(Operation::Divide));
@@ -1142,10 +1215,13 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
                 _ if handle_equal_sign(&mut v, c) => {}
                 _ => {
-                    if c == ReservedChar::OpenParenthese {
-                        parentheses.open.push(Before::new(&v));
-                    } else if c == ReservedChar::CloseParenthese {
-                        parentheses.closed = parentheses.open.pop().unwrap_or(Before::Other);
+                    match c {
+                        ReservedChar::OpenParenthese => delimiters.open_parenthese(&v),
+                        ReservedChar::OpenCurlyBrace => delimiters.open_curly_brace(&v),
+                        ReservedChar::CloseParenthese | ReservedChar::CloseCurlyBrace => {
+                            delimiters.close()
+                        }
+                        _ => {}
                     }
                     if let Ok(o) = Operation::try_from(c) {
                         v.push(Token::Operation(o));
-- 
2.43.0


From 10663d67d7fbfe493bcf5e6a34eb2ffa04630e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 68/68] fix: skip the regular expressions of the substitutions
 of a template literal

---
 src/js/token.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index a938999..6f5ae45 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -766,6 +766,14 @@ fn get_regex<'a>(
             _ => return None,
         }
     }
+    read_regex(source, iterator, start_pos)
+}
+
+fn read_regex<'a>(
+    source: &'a str,
+    iterator: &mut MyPeekable<'_>,
+    start_pos: &mut usize,
+) -> Option<Token<'a>> {
     iterator.start_save();
     let mut in_class = false;
     // A slash met by a search which already failed was in a class: the next bracket leads to the
@@ -887,6 +895,24 @@ fn get_string<'a>(
 // Legitimate code never nests anywhere near this deep.
 const MAX_BACKTICK_NESTING: usize = 1000;
 
+/// Tells if the code of a template literal, without what comes after its last token, ends with a
+/// value: a slash which comes next is a division.
+fn ends_with_value(code: &str) -> bool {
+    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
+    let before = code.trim_end_matches(word);
+    let is_property = before.ends_with('.') && !before.ends_with("...");
+    match &code[before.len()..] {
+        "" => {
+            before.ends_with([')', ']', '}', '"', '\'', '`'])
+                || (before.ends_with("++") && !before.ends_with("+++"))
+                || (before.ends_with("--") && !before.ends_with("---"))
+                || is_property
+        }
+        "void" | "delete" | "yield" | "await" => is_property,
+        name => is_property || Keyword::try_from(name).map_or(true, |k| k.is_value()),
+    }
+}
+
 fn get_backtick_string<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -901,6 +927,10 @@ fn get_backtick_string<'a>(
         }
         if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {
             let mut count = 0;
+            let start = pos + 2;
+            // The end of the last token, and if this one is a regex.
+            let mut last = start;
+            let mut is_regex = false;
 
             loop {
                 if let Some((mut pos, c)) = iterator.next() {
@@ -908,12 +938,20 @@ fn get_backtick_string<'a>(
                         // we skip next character
                         iterator.next();
                         continue;
+                    } else if c.is_whitespace() {
+                        continue;
                     } else if c == '/' && iterator.peek().map(|(_, c)| c) == Some('/') {
                         get_line_comment(source, iterator, &mut pos);
+                        continue;
                     } else if c == '/' && iterator.peek().map(|(_, c)| c) == Some('*') {
                         iterator.next();
                         pos += 1;
                         get_comment(source, iterator, &mut pos);
+                        continue;
+                    } else if c == '/' && !is_regex && !ends_with_value(&source[start..last]) {
+                        is_regex = read_regex(source, iterator, &mut pos).is_some();
+                        last = pos + 1;
+                        continue;
                     } else if c == '"' || c == '\'' {
                         // We don't care about the result
                         get_string(
@@ -936,6 +974,8 @@ fn get_backtick_string<'a>(
                             break;
                         }
                     }
+                    is_regex = false;
+                    last = pos + c.len_utf8();
                 } else {
                     return Ok(None);
                 }
-- 
2.43.0

