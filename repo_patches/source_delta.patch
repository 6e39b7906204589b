From c8a31092f1a2536147b899444141e689e6aa4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 01/38] fix: lex => as a single arrow token

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..0395ad0 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -665,6 +665,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From d300fd0bd82b8d860bf2b8af90e8c4995a66299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 02/38] fix: report an unterminated regexp at the end of input
 instead of panicking

---
 crates/joker/src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 0395ad0..ed7af86 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -248,7 +248,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -278,7 +280,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
-- 
2.43.0


From 21c5862e4ddf8320c6d2f4fdd4b89adb6e0ab0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 03/38] fix: report an incomplete \u{ escape at the end of
 input instead of panicking

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index ed7af86..1ac4499 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -453,7 +453,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From fb46b6534089a1a46c1701db0b0bd9f6f39c49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 04/38] fix: do not overflow on a \u{} escape with many digits

---
 crates/joker/src/lexer.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 1ac4499..e115918 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,7 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    digits.iter().fold(0u32, |sum, digit| sum.saturating_mul(radix).saturating_add(*digit))
 }
 
 struct SpanTracker {
-- 
2.43.0


From dc8d6b3c2e01e7574a9ab4356045657f9db44d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 05/38] fix: combine surrogate pair escapes and reject out of
 range code points in strings

---
 crates/joker/src/lexer.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index e115918..bbe2952 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -409,6 +409,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let span = self.start();
         let mut source = String::new();
         let mut value = String::new();
+        let mut lead = None;
         let quote = self.read();
         source.push(quote);
         loop {
@@ -419,7 +420,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             });
             match self.peek() {
                 Some('\\') => {
-                    self.read_string_escape(&mut source, &mut value)?;
+                    self.read_string_escape(&mut source, &mut value, &mut lead)?;
                 }
                 Some(ch) if ch.is_es_newline() => {
                     return Err(Error::UnterminatedString(Some(ch)));
@@ -463,7 +464,8 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
     }
 
-    fn read_string_escape(&mut self, source: &mut String, value: &mut String) -> Result<()> {
+    // `lead` holds the last leading surrogate escape and the length of the value just after it.
+    fn read_string_escape(&mut self, source: &mut String, value: &mut String, lead: &mut Option<(u32, usize)>) -> Result<()> {
         source.push(self.reread('\\'));
         match self.peek() {
             Some(ch) if ch.is_es_oct_digit() => {
@@ -493,7 +495,23 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             Some('u') => {
                 source.push(self.reread('u'));
                 let code = self.read_unicode_escape_seq(source)?;
-                value.push(char::from_u32(code).unwrap_or('?'));
+                match (code, *lead) {
+                    (0xDC00...0xDFFF, Some((high, len))) if len == value.len() => {
+                        let pair = 0x10000 + ((high - 0xD800) << 10) + (code - 0xDC00);
+                        value.pop();
+                        value.push(char::from_u32(pair).unwrap());
+                    }
+                    (0xD800...0xDFFF, _) => {
+                        value.push('?');
+                        if code < 0xDC00 {
+                            *lead = Some((code, value.len()));
+                        }
+                    }
+                    _ => match char::from_u32(code) {
+                        Some(ch) => { value.push(ch); }
+                        None => { return Err(Error::IllegalUnicode(code)); }
+                    }
+                }
             }
             Some(ch) if ch.is_es_newline() => {
                 self.read_newline_into(source);
-- 
2.43.0


From f6f860c415b5040e45606ca740de0d59a6f2fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 06/38] fix: reject line terminators inside regexp classes

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index bbe2952..9032268 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -284,6 +284,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 1850c827aa3571ac32c3dea93517e3b2ee4d84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 07/38] fix: reject escapes in regexp flags

---
 crates/joker/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 9032268..54b1e4e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -245,10 +245,14 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         if !self.matches('/') {
             return Err(Error::UnterminatedRegExp(None));
         }
-        let flags = self.read_word_parts()?;
+        let mut flags = String::new();
+        self.read_into_until(&mut flags, &|ch| !ch.is_es_identifier_continue());
+        if self.peek() == Some('\\') {
+            return Err(Error::IllegalChar('\\'));
+        }
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
-            flags: flags.text.chars().collect()
+            flags: flags.chars().collect()
         })))
     }
 
-- 
2.43.0


From a6d020413515875b40c9414fe2158aab5ec342aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 08/38] fix: recognise --> after a block comment that spans
 lines

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 54b1e4e..ae5d80b 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -623,7 +623,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From eb9a086ee26a56bd71aec37313fbf28c12b1263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 09/38] fix: treat U+2007 and U+2008 as white space

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From 3e6776d1dd574ec20ecc0de8c26ec30feb6fd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 10/38] fix: reject identifier escapes of characters that
 cannot occur there

---
 crates/joker/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index ae5d80b..57be161 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -576,8 +576,12 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if s.text.is_empty() && ch.is_es_identifier_start() ||
+                        !s.text.is_empty() && ch.is_es_identifier_continue() => {
+                s.text.push(ch);
+                Ok(())
+            }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From f19055ea77c56fe5b2ffe33e16c8700c01c6dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 11/38] fix: reject an escaped identifier directly after a
 number

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 57be161..16defba 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -402,7 +402,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch == '\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From 46ae9cd97f4d68a23b962d365c304a0eda894eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 12/38] fix: round long hexadecimal, octal and binary literals
 once

---
 crates/joker/src/token.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/joker/src/token.rs b/crates/joker/src/token.rs
index edacecd..ef9d32b 100644
--- a/crates/joker/src/token.rs
+++ b/crates/joker/src/token.rs
@@ -212,11 +212,20 @@ impl NumberSource {
             }
             NumberSource::RadixInt(ref radix, ref src) => {
                 let radix = radix.value();
-                let mult = radix as f64;
-
-                src.chars()
-                .map(|c| c.to_digit(radix).unwrap() as f64)
-                .fold(0f64, |res, digit| res.mul_add(mult, digit))
+                // Digits beyond the precision of an f64 only scale the value; whether any
+                // of them is nonzero is kept in the lowest bit, so that it rounds only once.
+                let mut mantissa = 0u64;
+                let mut scale = 1f64;
+                for c in src.chars() {
+                    let digit = c.to_digit(radix).unwrap() as u64;
+                    if mantissa >> 58 == 0 {
+                        mantissa = mantissa * (radix as u64) + digit;
+                    } else {
+                        mantissa |= (digit != 0) as u64;
+                        scale *= radix as f64;
+                    }
+                }
+                mantissa as f64 * scale
             }
             NumberSource::Float(ref ip, ref fp, None) => {
                 format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()
-- 
2.43.0


From dbb5f131838e0b99b1c5ae7431a3d24a7fff5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 13/38] fix: recognise directives by their source text without
 the quotes

---
 crates/easter/src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..96939a2 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,8 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // The source text includes the quotes.
+            &source[1..source.len() - 1]
         } else {
             &self.string.value
         }
-- 
2.43.0


From a4c8b14dbc9967e4fb18e7d4d0489b5364980b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 14/38] fix: treat a slash after a leading string literal as an
 operator

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..94407be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From dea44aa41da2c3262a68e5489eace162812f4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 15/38] fix: do not take the end of input for the operand of a
 jump

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From 5cb9435c04cdd01e9682703d136926d99132415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 16/38] fix: allow a comma expression as the object of a for-in
 loop

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 94407be..3ad8916 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -920,7 +920,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From 34b3c4de1303bcbc4896a5b5ca81be18739082d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 17/38] fix: report import and export declarations as
 unsupported instead of panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3ad8916..9c1049c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,9 +301,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import")); }
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export")); }
                 _ => { }
             }
 
-- 
2.43.0


From a3a2e473211317c0b2d507a59df9c3b82ef615d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 18/38] fix: reject a label nested inside itself

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index bcbf6de..479811f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -6,6 +6,7 @@ use joker::word::Name;
 use joker::track::span;
 use easter::stmt::Stmt;
 use easter::id::Id;
+use error::Error;
 use result::Result;
 use parser::{Parser, Strict};
 
@@ -23,6 +24,9 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         let mut label_strings = Vec::new();
         for id in labels.iter() {
             let label = Rc::new(id.name.clone());
+            if self.context.labels.contains_key(&label) {
+                return Err(Error::InvalidLabel(id.clone()));
+            }
             self.context.labels.insert(label.clone(), label_type);
             label_strings.push(label);
         }
-- 
2.43.0


From 3a2bc0aef3b630c00d1bcadef9f567dd27eae5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 19/38] fix: convert a located final spread to a rest pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From 95751b6ad7beef57e96a11eeba038d52b6413049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 20/38] fix: locate nodes from their first token to their last

---
 crates/joker/src/lexer.rs | 14 ++++++++++++++
 src/parser.rs             | 20 ++++++++++----------
 src/track.rs              | 36 ++++++++++++++++++------------------
 3 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 16defba..383868f 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -14,6 +14,9 @@ fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
     digits.iter().fold(0u32, |sum, digit| sum.saturating_mul(radix).saturating_add(*digit))
 }
 
+// More than the lookahead ever holds.
+const MAX_ENDS: usize = 8;
+
 struct SpanTracker {
     start: Posn
 }
@@ -30,6 +33,7 @@ impl SpanTracker {
 pub struct Lexer<I> {
     reader: Reader<I>,
     lookahead: VecDeque<Token>,
+    ends: VecDeque<Posn>, // where the last few tokens ended, those in the lookahead included
     wordmap: WordMap,
     empty_line: bool
 }
@@ -41,6 +45,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         Lexer {
             reader: Reader::new(chars),
             lookahead: VecDeque::with_capacity(2),
+            ends: VecDeque::with_capacity(MAX_ENDS),
             wordmap: WordMap::new(),
             empty_line: true
         }
@@ -87,6 +92,11 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         self.reader.curr_posn()
     }
 
+    // The end of the last token that was read and not put back.
+    pub fn last_end(&self) -> Posn {
+        self.ends.iter().rev().nth(self.lookahead.len()).map_or(Posn::origin(), |end| *end)
+    }
+
     fn start(&self) -> SpanTracker {
         SpanTracker { start: self.posn() }
     }
@@ -752,6 +762,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             }
         }?;
         result.newline = found_newline;
+        if self.ends.len() == MAX_ENDS {
+            self.ends.pop_front();
+        }
+        self.ends.push_back(result.location.end);
         Ok(result)
     }
 }
diff --git a/src/parser.rs b/src/parser.rs
index 9c1049c..5adbf56 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,7 +164,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn match_directive_opt(&mut self) -> Result<Option<Dir>> {
-        let span = self.start();
+        let span = self.start()?;
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
@@ -524,7 +524,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn expression_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let expr = self.allow_in(true, |this| this.expression())?;
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Expr(None, expr, semi))?)
     }
@@ -542,7 +542,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn var_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Var));
         let dtors = self.comma_separated(Self::declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Var(None, dtors, semi))
@@ -555,7 +555,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn const_declaration(&mut self) -> Result<Decl> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Const));
         let dtors = self.comma_separated(Self::const_declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Decl::Const(None, dtors, semi))
@@ -671,7 +671,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn do_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Do));
         let body = Box::new(self.iteration_body()?);
         self.expect(TokenData::Reserved(Reserved::While))?;
@@ -1014,7 +1014,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn break_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let break_token = self.reread(TokenData::Reserved(Reserved::Break));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1034,7 +1034,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn continue_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let continue_token = self.reread(TokenData::Reserved(Reserved::Continue));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1056,7 +1056,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn return_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Return));
         let arg = if self.has_arg_same_line()? {
             Some(self.allow_in(true, |this| this.expression())?)
@@ -1086,7 +1086,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn throw_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let token = self.reread(TokenData::Reserved(Reserved::Throw));
         if !self.has_arg_same_line()? {
             return Err(Error::ThrowArgument(token));
@@ -1142,7 +1142,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn debugger_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Debugger));
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Debugger(None, semi))?)
     }
diff --git a/src/track.rs b/src/track.rs
index 8690035..6934cbb 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -8,8 +8,8 @@ use state::State;
 
 pub trait Tracking {
     fn vec_span<T: TrackingRef>(&self, v: &Vec<T>) -> Option<Span>;
-    fn posn(&self) -> Posn;
-    fn start(&self) -> SpanTracker;
+    fn last_end(&self) -> Posn;
+    fn start(&mut self) -> Result<SpanTracker>;
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut;
@@ -19,28 +19,29 @@ impl<I> Tracking for Parser<I> where I: Iterator<Item=char> {
     fn vec_span<T: TrackingRef>(&self, v: &Vec<T>) -> Option<Span> {
         let len = v.len();
         if len == 0 {
-            let here = self.posn();
+            let here = self.last_end();
             return Some(Span { start: here, end: here });
         }
         span(&v[0], &v[len - 1])
     }
 
-    fn posn(&self) -> Posn {
-        self.lexer.posn()
+    // The end of the last consumed token.
+    fn last_end(&self) -> Posn {
+        self.lexer.last_end()
     }
 
-    fn start(&self) -> SpanTracker {
-        SpanTracker::new(self.posn())
+    // Start tracking at the next token.
+    fn start(&mut self) -> Result<SpanTracker> {
+        Ok(SpanTracker::new(self.peek()?.location.start))
     }
 
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut
     {
-        let start = self.posn();
+        let start = self.start()?;
         let mut value = parse(self)?;
-        let end = self.posn();
-        *value.tracking_mut() = Some(Span { start: start, end: end });
+        *value.tracking_mut() = Some(start.end(self));
         Ok(value)
     }
 }
@@ -56,13 +57,13 @@ pub struct SpanTracker {
 }
 
 impl SpanTracker {
-/*
-    pub fn end<I, T>(&self, parser: &Parser<I>, value: T) -> Tracked<T>
+    // The span from the start to the last consumed token, empty if no token was consumed.
+    pub fn end<I>(&self, parser: &Parser<I>) -> Span
       where I: Iterator<Item=char>
     {
-        Tracked { value: value, location: Some(Span { start: self.start, end: parser.posn() }) }
+        let end = parser.last_end();
+        Span { start: self.start, end: if end.offset < self.start.offset { self.start } else { end } }
     }
-*/
 
     pub fn new(start: Posn) -> Self {
         SpanTracker { start: start }
@@ -74,18 +75,17 @@ impl SpanTracker {
             F: FnOnce(Semi) -> T,
             T: TrackingMut
     {
-        let before = parser.posn();
         match parser.peek()? {
             &Token { value: TokenData::Semi, location, .. } => {
                 parser.reread(TokenData::Semi);
                 let mut result = cons(Semi::Explicit(Some(location.start)));
-                *result.tracking_mut() = Some(Span { start: self.start, end: parser.posn() });
+                *result.tracking_mut() = Some(self.end(parser));
                 Ok(result)
             }
             &Token { value: TokenData::RBrace, .. }
           | &Token { value: TokenData::EOF, .. } => {
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = Some(self.end(parser));
                 Ok(result)
             }
             &Token { newline: found_newline, .. } => {
@@ -94,7 +94,7 @@ impl SpanTracker {
                     return Err(Error::FailedASI(token));
                 }
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = Some(self.end(parser));
                 Ok(result)
             }
         }
-- 
2.43.0


From 6fd07a2412b62c45b84fd9ab027a9366079b392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 21/38] fix: locate accessors and methods from their first
 token to their last

---
 src/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5adbf56..9d81122 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1260,7 +1260,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
                 Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: key.tracking_ref().map(|key| SpanTracker::new(key.start).end(self)),
                     id: key,
                     params: params,
                     body: body,
@@ -1305,11 +1305,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
         match first.value {
             TokenData::Identifier(Name::Atom(Atom::Get)) => {
                 if let Some(key) = self.property_key_opt()? {
-                    let paren_location = Some(self.expect(TokenData::LParen)?.location);
+                    let paren_location = self.expect(TokenData::LParen)?.location;
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&vec![])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let val_location = Some(SpanTracker::new(paren_location.start).end(self));
+                    let prop_location = Some(SpanTracker::new(first.location.start).end(self));
                     return Ok(Prop::Regular(prop_location, key, PropVal::Get(val_location, body)));
                 }
                 let key_location = Some(first.location);
@@ -1317,12 +1317,12 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::Identifier(Name::Atom(Atom::Set)) => {
                 if let Some(key) = self.property_key_opt()? {
-                    let paren_location = Some(self.expect(TokenData::LParen)?.location);
+                    let paren_location = self.expect(TokenData::LParen)?.location;
                     let param = self.pattern()?;
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&[param.clone()])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let val_location = Some(SpanTracker::new(paren_location.start).end(self));
+                    let prop_location = Some(SpanTracker::new(first.location.start).end(self));
                     return Ok(Prop::Regular(prop_location, key, PropVal::Set(val_location, param, body)));
                 }
                 let key_location = Some(first.location);
@@ -1333,7 +1333,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
                 Ok(Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: Some(SpanTracker::new(first.location.start).end(self)),
                     id: key,
                     params: params,
                     body: body,
-- 
2.43.0


From 920f5a0bf94251c815cc8fc6bafdb5cb214cf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 22/38] fix: locate increments and decrements together with
 their operand

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9d81122..2802427 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1518,8 +1518,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             arg = match arg.into_assign_target().map(Box::new) {
                 Ok(target) => {
                     match postfix {
-                        Postfix::Inc(location) => Expr::PostInc(Some(location), target),
-                        Postfix::Dec(location) => Expr::PostDec(Some(location), target)
+                        Postfix::Inc(location) => Expr::PostInc(span(&arg_location, &Some(location)), target),
+                        Postfix::Dec(location) => Expr::PostDec(span(&arg_location, &Some(location)), target)
                     }
                 }
                 Err(cover_err) => { return Err(Error::InvalidLHS(arg_location, cover_err)); }
@@ -1536,8 +1536,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     arg = match arg.into_assign_target().map(Box::new) {
                         Ok(target) => {
                             match prefix {
-                                Prefix::Inc(location) => Expr::PreInc(Some(location), target),
-                                Prefix::Dec(location) => Expr::PreDec(Some(location), target),
+                                Prefix::Inc(location) => Expr::PreInc(span(&Some(location), &arg_location), target),
+                                Prefix::Dec(location) => Expr::PreDec(span(&Some(location), &arg_location), target),
                                 Prefix::Unop(_) => unreachable!()
                             }
                         }
-- 
2.43.0


From e93b12c4404483b243f77d8a64b895b172d5348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 23/38] fix: locate conditional expressions from their test on

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2802427..242e318 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1617,7 +1617,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             let cons = self.allow_in(true, |this| this.assignment_expression())?;
             self.expect(TokenData::Colon)?;
             let alt = self.assignment_expression()?;
-            let location = span(&cons, &alt);
+            let location = span(&left, &alt);
             return Ok(Expr::Cond(location, Box::new(left), Box::new(cons), Box::new(alt)));
         }
         Ok(left)
-- 
2.43.0


From ffddb43267c087072533aceeb8d7e007babc5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 24/38] fix: include the initialiser in the location of a
 declarator

---
 crates/easter/src/decl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/decl.rs b/crates/easter/src/decl.rs
index bf9b341..5b17f7f 100644
--- a/crates/easter/src/decl.rs
+++ b/crates/easter/src/decl.rs
@@ -65,8 +65,11 @@ impl DtorExt for Dtor {
 
     fn from_init_opt(lhs: Patt<Id>, rhs: Option<Expr>) -> Result<Dtor, Patt<Id>> {
         match (lhs, rhs) {
-            (Patt::Simple(id), rhs) => {
-                Ok(Dtor::Simple(*id.tracking_ref(), id, rhs))
+            (Patt::Simple(id), None) => {
+                Ok(Dtor::Simple(*id.tracking_ref(), id, None))
+            }
+            (Patt::Simple(id), Some(rhs)) => {
+                Ok(Dtor::from_simple_init(id, rhs))
             }
             (lhs @ Patt::Compound(_), None) => Err(lhs),
             (Patt::Compound(patt), Some(rhs)) => {
-- 
2.43.0


From 2c37d0b7b17c2893adea35d11489c73ff30d2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 25/38] fix: member accesses after the arguments of a nested
 new belong to it

---
 src/parser.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 242e318..daee941 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1372,23 +1372,22 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.primary_expression()
     }
 
-    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* Arguments<n Suffix*
+    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* (Arguments Deref*)<n Suffix*
     fn new_expression(&mut self, news: Vec<Token>) -> Result<Expr> {
         // ES6: if let Some(super) = self.match_token(TokenData::Reserved(Reserved::Super))? {
         let base = self.member_base_expression()?;
         self.more_new_expression(news, base)
     }
 
-    // "new"+n MemberBaseExpression . Deref* Arguments<n Suffix*
+    // "new"+n MemberBaseExpression . Deref* (Arguments Deref*)<n Suffix*
     fn more_new_expression(&mut self, news: Vec<Token>, mut base: Expr) -> Result<Expr> {
-        while let Some(deref) = self.deref_opt()? {
-            base = deref.append_to(base);
-        }
+        base = self.more_derefs(base)?;
         let mut has_args = true;
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let base = self.arguments()?.append_to_new(new, base);
+                self.more_derefs(base)?
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
@@ -1397,6 +1396,14 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.more_suffixes(base)
     }
 
+    // Deref*
+    fn more_derefs(&mut self, mut result: Expr) -> Result<Expr> {
+        while let Some(deref) = self.deref_opt()? {
+            result = deref.append_to(result);
+        }
+        Ok(result)
+    }
+
     // CallExpression ::=
     //   (MemberBaseExpression | "super" Suffix) Suffix*
     fn call_expression(&mut self) -> Result<Expr> {
-- 
2.43.0


From 786ad6e908dd71cb8a584ac6ef376cd3ee5d2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 26/38] fix: treat an escaped contextual word as the identifier
 it spells

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index daee941..856f2cb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -569,6 +569,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
+        // Escapes keep a word from being a keyword, but do not make it a different identifier.
+        let name = Name::from(name.into_string());
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
-- 
2.43.0


From e1bb5d0f6a4767da4c5541fed28cb55a1d0563ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 27/38] fix: reject a script with anything after its last
 statement

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 856f2cb..188abe7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From 792c5413caaa1488cecaf25e8309a095bdf32d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 28/38] fix: reject patterns in parentheses and commas after a
 rest element

---
 src/parser.rs | 73 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 188abe7..dd97575 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5,13 +5,15 @@ use joker::lexer::Lexer;
 use easter::stmt::{Stmt, Block, StmtListItem, ForHead, ForInHead, ForOfHead, Case, Catch, Script, Dir, ModItem, Module};
 use easter::expr::{Expr, ExprListItem};
 use easter::decl::{Decl, Dtor, ConstDtor, DtorExt};
-use easter::patt::{Patt, RestPatt, CompoundPatt};
+use easter::patt::{Patt, RestPatt, CompoundPatt, AssignTarget};
 use easter::fun::{Fun, Params};
 use easter::obj::{PropKey, PropVal, Prop, DotKey};
 use easter::id::{Id, IdExt};
 use easter::punc::{Unop, UnopTag, ToOp, Op};
+use easter::cover;
 use easter::cover::{IntoAssignTarget, IntoAssignPatt};
 
+use std::collections::HashSet;
 use std::rc::Rc;
 use std::mem::replace;
 use context::{Context, LabelType, WithContext, Goal};
@@ -33,7 +35,8 @@ pub struct Parser<I> {
     pub validate: bool,       // should we do strict mode validation as eagerly as possible?
     pub deferred: Vec<Check>, // strict mode checks that haven't been performed yet
     pub lexer: Lexer<I>,
-    pub context: Context
+    pub context: Context,
+    non_patterns: HashSet<u32> // offsets of literals not written as a pattern could be
 }
 
 enum ProgramItems {
@@ -151,7 +154,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             validate: validate,
             deferred: Vec::new(),
             lexer: lexer,
-            context: Context::new()
+            context: Context::new(),
+            non_patterns: HashSet::new()
         }
     }
 
@@ -874,21 +878,13 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::Reserved(Reserved::In) => {
                 self.reread(TokenData::Reserved(Reserved::In));
-                let lhs_location = *lhs.tracking_ref();
-                let lhs = match lhs.into_assign_patt() {
-                    Ok(lhs) => lhs,
-                    Err(cover_err) => { return Err(Error::InvalidLHS(lhs_location, cover_err)); }
-                };
+                let lhs = self.assign_patt(lhs)?;
                 let head = Box::new(ForInHead::Patt(lhs));
                 self.more_for_in(head)
             }
             TokenData::Identifier(Name::Atom(Atom::Of)) => {
                 self.reread(TokenData::Identifier(Name::Atom(Atom::Of)));
-                let lhs_location = *lhs.tracking_ref();
-                let lhs = match lhs.into_assign_patt() {
-                    Ok(lhs) => lhs,
-                    Err(cover_err) => { return Err(Error::InvalidLHS(lhs_location, cover_err)); }
-                };
+                let lhs = self.assign_patt(lhs)?;
                 let head = Box::new(ForOfHead::Patt(lhs));
                 self.more_for_of(head)
             }
@@ -1189,7 +1185,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::LParen => {
                 self.lexer.unread_token(token);
-                return self.paren_expression();
+                let result = self.paren_expression()?;
+                if let Expr::Arr(Some(location), _) | Expr::Obj(Some(location), _) = result {
+                    self.non_patterns.insert(location.start.offset);
+                }
+                return Ok(result);
             }
             // ES6: more cases
             _ => { return Err(Error::UnexpectedToken(token)); }
@@ -1203,6 +1203,10 @@ impl<I: Iterator<Item=char>> Parser<I> {
             loop {
                 // Optional final comma does not count as an element.
                 if this.peek()?.value == TokenData::RBrack {
+                    // But a rest element cannot have a comma after it.
+                    if let Some(&Some(ExprListItem::Spread(_, _))) = elts.last() {
+                        this.non_patterns.insert(start.location.start.offset);
+                    }
                     break;
                 }
                 elts.push(this.array_element()?);
@@ -1642,14 +1646,47 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.more_assignment(left)
     }
 
+    // Not every literal that has the shape of a pattern is written as one.
+    fn check_written_as_patt(&self, expr: &Expr) -> ::std::result::Result<(), cover::Error> {
+        match *expr {
+            Expr::Arr(Some(location), _) | Expr::Obj(Some(location), _)
+                if self.non_patterns.contains(&location.start.offset) =>
+            {
+                return Err(cover::Error::InvalidAssignTarget(Some(location)));
+            }
+            Expr::Arr(_, ref elts) => {
+                for elt in elts {
+                    match *elt {
+                        Some(ExprListItem::Expr(ref expr))
+                      | Some(ExprListItem::Spread(_, ref expr)) => { self.check_written_as_patt(expr)?; }
+                        None => { }
+                    }
+                }
+            }
+            Expr::Obj(_, ref props) => {
+                for prop in props {
+                    if let Prop::Regular(_, _, PropVal::Init(ref expr)) = *prop {
+                        self.check_written_as_patt(expr)?;
+                    }
+                }
+            }
+            _ => { }
+        }
+        Ok(())
+    }
+
+    fn assign_patt(&mut self, expr: Expr) -> Result<Patt<AssignTarget>> {
+        let location = *expr.tracking_ref();
+        self.check_written_as_patt(&expr)
+            .and_then(|_| expr.into_assign_patt())
+            .map_err(|cover_err| Error::InvalidLHS(location, cover_err))
+    }
+
     fn more_assignment(&mut self, left: Expr) -> Result<Expr> {
         let token = self.read_op()?;
         let left_location = *left.tracking_ref();
         if token.value == TokenData::Assign {
-            let left = match left.into_assign_patt() {
-                Ok(left) => left,
-                Err(cover_err) => { return Err(Error::InvalidLHS(left_location, cover_err)); }
-            };
+            let left = self.assign_patt(left)?;
             let right = self.assignment_expression()?;
             let location = span(&left, &right);
             return Ok(Expr::Assign(location, left, Box::new(right)));
-- 
2.43.0


From 68f4cbb5ad7a2da23fc60771cbd0eaccb2bda2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 29/38] fix: report yield in a generator as unsupported instead
 of reading it as a name

---
 src/context.rs | 16 +++++++++++++++-
 src/parser.rs  | 41 +++++++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 479811f..83121bf 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -15,6 +15,8 @@ pub trait WithContext {
       where F: FnOnce(&mut Self) -> Result<Stmt>;
     fn allow_in<F, T>(&mut self, allow_in: bool, parse: F) -> Result<T>
       where F: FnOnce(&mut Self) -> Result<T>;
+    fn in_generator<F, T>(&mut self, generator: bool, parse: F) -> Result<T>
+      where F: FnOnce(&mut Self) -> Result<T>;
 }
 
 impl<I: Iterator<Item=char>> WithContext for Parser<I> {
@@ -51,6 +53,15 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         replace(&mut self.context.allow_in, allow_in);
         result
     }
+
+    fn in_generator<F, T>(&mut self, generator: bool, parse: F) -> Result<T>
+      where F: FnOnce(&mut Self) -> Result<T>
+    {
+        let generator = replace(&mut self.context.generator, generator);
+        let result = parse(self);
+        self.context.generator = generator;
+        result
+    }
 }
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone)]
@@ -74,6 +85,7 @@ impl Default for Goal {
 pub struct Context {
     pub strict: Strict,
     pub function: bool,
+    pub generator: bool,
     pub iteration: bool,
     pub switch: bool,
     pub allow_in: bool,
@@ -85,6 +97,7 @@ impl Context {
         Context {
             strict: Strict::Unknown,
             function: false,
+            generator: false,
             iteration: false,
             switch: false,
             allow_in: true,
@@ -92,10 +105,11 @@ impl Context {
         }
     }
 
-    pub fn new_function(&self) -> Context {
+    pub fn new_function(&self, generator: bool) -> Context {
         Context {
             strict: self.strict,
             function: true,
+            generator: generator,
             iteration: false,
             switch: false,
             allow_in: true,
diff --git a/src/parser.rs b/src/parser.rs
index dd97575..6073b40 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -330,11 +330,15 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     fn function_declaration(&mut self) -> Result<Decl> {
         self.span(&mut |this| {
-            Ok(Decl::Fun(this.function(|this| this.id(true))?))
+            Ok(Decl::Fun(this.function(|this, _| this.id(true))?))
         })
     }
 
-    fn formal_parameters(&mut self) -> Result<Params> {
+    fn formal_parameters(&mut self, generator: bool) -> Result<Params> {
+        self.in_generator(generator, |this| this.parameters())
+    }
+
+    fn parameters(&mut self) -> Result<Params> {
         self.span(&mut |this| {
             this.expect(TokenData::LParen)?;
             let mut list = Vec::new();
@@ -419,20 +423,20 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn function<Id, F>(&mut self, get_id: F) -> Result<Fun<Id>>
-        where F: Fn(&mut Self) -> Result<Id>
+        where F: Fn(&mut Self, bool) -> Result<Id>
     {
         self.span(&mut |this| {
             this.reread(TokenData::Reserved(Reserved::Function));
             let generator = this.matches(TokenData::Star)?;
-            let id = get_id(this)?;
-            let params = this.formal_parameters()?;
-            let body = this.function_body(&params.list)?;
+            let id = get_id(this, generator)?;
+            let params = this.formal_parameters(generator)?;
+            let body = this.function_body(&params.list, generator)?;
             Ok(Fun { location: None, id: id, params: params, body: body, generator: generator })
         })
     }
 
-    fn function_body(&mut self, params: &[Patt<Id>]) -> Result<Script> {
-        let inner = self.context.new_function();
+    fn function_body(&mut self, params: &[Patt<Id>], generator: bool) -> Result<Script> {
+        let inner = self.context.new_function(generator);
         let outer = replace(&mut self.context, inner);
         self.expect(TokenData::LBrace)?;
         // ES6: if the body has "use strict" check for simple parameters
@@ -594,6 +598,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             None
         })?;
+        if self.context.generator && name == Name::Atom(Atom::Yield) {
+            return Err(Error::UnsupportedFeature("yield"));
+        }
         Ok(Id::new(name, Some(location)))
     }
 
@@ -1181,7 +1188,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::LBrace                    => { return self.object_literal(token); }
             TokenData::Reserved(Reserved::Function) => {
                 self.lexer.unread_token(token);
-                return Ok(Expr::Fun(self.function(|this| this.id_opt(true))?));
+                return Ok(Expr::Fun(self.function(|this, generator| {
+                    this.in_generator(generator, |this| this.id_opt(true))
+                })?));
             }
             TokenData::LParen => {
                 self.lexer.unread_token(token);
@@ -1265,8 +1274,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 Prop::Regular(span(key.tracking_ref(), val.tracking_ref()), key, PropVal::Init(val))
             }
             TokenData::LParen => {
-                let params = self.formal_parameters()?;
-                let body = self.function_body(&params.list)?;
+                let params = self.formal_parameters(false)?;
+                let body = self.function_body(&params.list, false)?;
                 Prop::Method(Fun {
                     location: key.tracking_ref().map(|key| SpanTracker::new(key.start).end(self)),
                     id: key,
@@ -1315,7 +1324,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 if let Some(key) = self.property_key_opt()? {
                     let paren_location = self.expect(TokenData::LParen)?.location;
                     self.expect(TokenData::RParen)?;
-                    let body = self.function_body(&vec![])?;
+                    let body = self.function_body(&vec![], false)?;
                     let val_location = Some(SpanTracker::new(paren_location.start).end(self));
                     let prop_location = Some(SpanTracker::new(first.location.start).end(self));
                     return Ok(Prop::Regular(prop_location, key, PropVal::Get(val_location, body)));
@@ -1326,9 +1335,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::Identifier(Name::Atom(Atom::Set)) => {
                 if let Some(key) = self.property_key_opt()? {
                     let paren_location = self.expect(TokenData::LParen)?.location;
-                    let param = self.pattern()?;
+                    let param = self.in_generator(false, |this| this.pattern())?;
                     self.expect(TokenData::RParen)?;
-                    let body = self.function_body(&[param.clone()])?;
+                    let body = self.function_body(&[param.clone()], false)?;
                     let val_location = Some(SpanTracker::new(paren_location.start).end(self));
                     let prop_location = Some(SpanTracker::new(first.location.start).end(self));
                     return Ok(Prop::Regular(prop_location, key, PropVal::Set(val_location, param, body)));
@@ -1338,8 +1347,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::Star => {
                 let key = self.property_key()?;
-                let params = self.formal_parameters()?;
-                let body = self.function_body(&params.list)?;
+                let params = self.formal_parameters(true)?;
+                let body = self.function_body(&params.list, true)?;
                 Ok(Prop::Method(Fun {
                     location: Some(SpanTracker::new(first.location.start).end(self)),
                     id: key,
-- 
2.43.0


From 44f5995d625e2a590b4eb6ec9a45da29f4045b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 30/38] fix: blame the token after const in a for head instead
 of the const

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6073b40..23cb07b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -839,10 +839,6 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'const' .
     fn for_const(&mut self) -> Result<Stmt> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
-        if !self.peek()?.first_binding() {
-            self.lexer.unread_token(const_token);
-            return self.for_expr();
-        }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
         let lhs = self.pattern()?;
-- 
2.43.0


From bb3f088b8ba7dcfc490141e9b6c62301f70b12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 31/38] fix: refuse ESTree nodes whose type does not fit their
 place

The types of programs, properties, declarators, cases, catch clauses, function
bodies and the functions of methods and accessors were never looked at.
---
 crates/estree/src/decl.rs |  2 ++
 crates/estree/src/fun.rs  |  2 ++
 crates/estree/src/obj.rs  | 10 +++++++++-
 crates/estree/src/prog.rs |  2 ++
 crates/estree/src/stmt.rs |  4 ++++
 crates/estree/src/tag.rs  | 25 ++++++++++++++++++++++++-
 6 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/crates/estree/src/decl.rs b/crates/estree/src/decl.rs
index 22e703a..f3c786f 100644
--- a/crates/estree/src/decl.rs
+++ b/crates/estree/src/decl.rs
@@ -2,6 +2,7 @@ use easter::decl::{Dtor, ConstDtor, DtorExt};
 use easter::patt::Patt;
 use unjson::ty::Object;
 
+use tag::{Tag, TagOf};
 use result::Result;
 use error::Error;
 use node::ExtractNode;
@@ -12,6 +13,7 @@ pub trait IntoDecl {
 
 impl IntoDecl for Object {
     fn into_dtor(mut self) -> Result<Dtor> {
+        self.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
         let lhs = self.extract_patt("id")?;
         let init = self.extract_expr_opt("init")?;
         Dtor::from_init_opt(lhs, init).map_err(Error::UninitializedPattern)
diff --git a/crates/estree/src/fun.rs b/crates/estree/src/fun.rs
index de7d2b6..37c5d70 100644
--- a/crates/estree/src/fun.rs
+++ b/crates/estree/src/fun.rs
@@ -2,6 +2,7 @@ use easter::fun::Fun;
 use unjson::ty::Object;
 use unjson::ExtractField;
 
+use tag::{Tag, TagOf};
 use result::Result;
 use node::ExtractNode;
 
@@ -14,6 +15,7 @@ impl<Id> IntoFun<Id> for Object {
         let generator = self.extract_bool_opt("generator")?.unwrap_or(false);
         let params = self.extract_params("params")?;
         let mut obj = self.extract_object("body")?;
+        obj.expect_tag(Tag::BlockStatement, "block statement")?;
         let body = obj.extract_script("body")?;
         Ok(Fun { location: None, id: id, params: params, body: body, generator: generator })
     }
diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 338f081..f896030 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -18,12 +18,14 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        self.expect_tag(Tag::Property, "property")?;
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
         let val = match &kind[..] {
             "init" => {
                 if self.extract_bool("method")? {
+                    val.expect_tag(Tag::FunctionExpression, "function expression")?;
                     let fun = val.into_fun(key.into_prop_key()?)?;
                     return Ok(Prop::Method(fun))
                 } else if self.extract_bool("shorthand")? {
@@ -32,8 +34,14 @@ impl IntoObj for Object {
                     PropVal::Init(val.into_expr()?)
                 }
             },
-            "get" => PropVal::Get(None, val.extract_object("body")?.extract_script("body")?),
+            "get" => {
+                val.expect_tag(Tag::FunctionExpression, "function expression")?;
+                let mut body = val.extract_object("body")?;
+                body.expect_tag(Tag::BlockStatement, "block statement")?;
+                PropVal::Get(None, body.extract_script("body")?)
+            }
             "set" => {
+                val.expect_tag(Tag::FunctionExpression, "function expression")?;
                 let fun = val.into_fun(())?;
                 let params = fun.params.list;
                 if params.len() != 1 {
diff --git a/crates/estree/src/prog.rs b/crates/estree/src/prog.rs
index 20e3863..e7f6f37 100644
--- a/crates/estree/src/prog.rs
+++ b/crates/estree/src/prog.rs
@@ -1,5 +1,6 @@
 use unjson::ty::Object;
 use easter::stmt::Script;
+use tag::{Tag, TagOf};
 use result::Result;
 use node::ExtractNode;
 
@@ -9,6 +10,7 @@ pub trait IntoScript {
 
 impl IntoScript for Object {
     fn into_script(mut self) -> Result<Script> {
+        self.expect_tag(Tag::Program, "program")?;
         self.extract_script("body")
     }
 }
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index fc32cb0..980d3b1 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -50,6 +50,7 @@ impl IntoForInHead for Object {
                     return array_error(1, dtors.len());
                 }
                 let mut obj = dtors.remove(0).into_object()?;
+                obj.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
                 let lhs = obj.extract_patt("id")?;
                 let init = obj.extract_expr_opt("init")?;
                 match (&kind[..], lhs, init) {
@@ -90,6 +91,7 @@ impl IntoForOfHead for Object {
                     return array_error(1, dtors.len());
                 }
                 let mut obj = dtors.remove(0).into_object()?;
+                obj.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
                 let lhs = obj.extract_patt("id")?;
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
@@ -253,12 +255,14 @@ impl IntoStmt for Object {
     }
 
     fn into_case(mut self) -> Result<Case> {
+        self.expect_tag(Tag::SwitchCase, "switch case")?;
         let test = self.extract_expr_opt("test")?;
         let body = self.extract_stmt_list("consequent")?;
         Ok(Case { location: None, test: test, body: body })
     }
 
     fn into_catch(mut self) -> Result<Catch> {
+        self.expect_tag(Tag::CatchClause, "catch clause")?;
         let param = self.extract_patt("param")?;
         let body = self.extract_block("body")?;
         Ok(Catch { location: None, param: param, body: body })
diff --git a/crates/estree/src/tag.rs b/crates/estree/src/tag.rs
index d0cedf2..78dc3f6 100644
--- a/crates/estree/src/tag.rs
+++ b/crates/estree/src/tag.rs
@@ -5,10 +5,12 @@ use unjson::ty::Object;
 use unjson::*;
 
 use result::Result;
-use error::Error;
+use error::{Error, node_type_error};
 
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub enum Tag {
+    Program,
+
     Identifier,
     Literal,
 
@@ -31,8 +33,14 @@ pub enum Tag {
     SpreadElement,
     RestElement,
 
+    Property,
+
     FunctionDeclaration,
     VariableDeclaration,
+    VariableDeclarator,
+
+    SwitchCase,
+    CatchClause,
 
     EmptyStatement,
     ExpressionStatement,
@@ -65,6 +73,7 @@ impl FromStr for Tag {
 
     fn from_str(s: &str) -> Result<Tag> {
         Ok(match s {
+            "Program"               => Tag::Program,
             "Identifier"            => Tag::Identifier,
             "Literal"               => Tag::Literal,
             "BinaryExpression"      => Tag::BinaryExpression,
@@ -84,6 +93,10 @@ impl FromStr for Tag {
             "MetaProperty"          => Tag::MetaProperty,
             "FunctionDeclaration"   => Tag::FunctionDeclaration,
             "VariableDeclaration"   => Tag::VariableDeclaration,
+            "VariableDeclarator"    => Tag::VariableDeclarator,
+            "Property"              => Tag::Property,
+            "SwitchCase"            => Tag::SwitchCase,
+            "CatchClause"           => Tag::CatchClause,
             "SpreadElement"         => Tag::SpreadElement,
             "RestElement"           => Tag::RestElement,
             "EmptyStatement"        => Tag::EmptyStatement,
@@ -111,6 +124,7 @@ impl FromStr for Tag {
 
 pub trait TagOf {
     fn tag(&self) -> Result<Tag>;
+    fn expect_tag(&self, Tag, &'static str) -> Result<()>;
 }
 
 impl TagOf for Object {
@@ -119,4 +133,13 @@ impl TagOf for Object {
         str.parse()
            .map_err(|_| Error::InvalidTypeTag(String::from(str)))
     }
+
+    fn expect_tag(&self, expected: Tag, description: &'static str) -> Result<()> {
+        let actual = self.tag()?;
+        if actual == expected {
+            Ok(())
+        } else {
+            node_type_error(description, actual)
+        }
+    }
 }
-- 
2.43.0


From 1b91adf5e188755a97e50756ee5d7e9ad2f2507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 32/38] fix: refuse initialisers in ESTree for-of heads instead
 of dropping them

---
 crates/estree/src/error.rs | 2 +-
 crates/estree/src/stmt.rs  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/error.rs b/crates/estree/src/error.rs
index 5983b06..c381649 100644
--- a/crates/estree/src/error.rs
+++ b/crates/estree/src/error.rs
@@ -32,7 +32,7 @@ impl Display for Error {
                 fmt.write_fmt(format_args!("expected {} node, got {}", expected, actual))
             }
             &Error::UnexpectedInitializer(_) => {
-                fmt.write_fmt(format_args!("unexpected initializer in for-in loop"))
+                fmt.write_fmt(format_args!("unexpected initializer in for-in or for-of loop"))
             }
             &Error::InvalidLHS(_) => {
                 fmt.write_fmt(format_args!("invalid left-hand side of assignment"))
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index 980d3b1..2e3a5ae 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -93,6 +93,9 @@ impl IntoForOfHead for Object {
                 let mut obj = dtors.remove(0).into_object()?;
                 obj.expect_tag(Tag::VariableDeclarator, "variable declarator")?;
                 let lhs = obj.extract_patt("id")?;
+                if let Some(init) = obj.extract_expr_opt("init")? {
+                    return Err(Error::UnexpectedInitializer(init));
+                }
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
                     "let" => ForOfHead::Let(None, lhs),
-- 
2.43.0


From 9e5389c4b9a672334e6abba09eaa63eec15353e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 33/38] fix: refuse computed ESTree property keys instead of
 taking them for names

---
 crates/estree/src/obj.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index f896030..5e7d566 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -22,6 +22,9 @@ impl IntoObj for Object {
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
+        if self.contains_key("computed") && self.extract_bool_opt("computed")?.unwrap_or(false) {
+            return type_error("property key that is not computed", Ty::Object);
+        }
         let val = match &kind[..] {
             "init" => {
                 if self.extract_bool("method")? {
-- 
2.43.0


From ddba2c43dc116afd37b658c42878e7e0546c6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 34/38] fix: refuse ESTree shorthand properties whose value is
 not their key

---
 crates/estree/src/obj.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 5e7d566..1bdfc4b 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -32,7 +32,11 @@ impl IntoObj for Object {
                     let fun = val.into_fun(key.into_prop_key()?)?;
                     return Ok(Prop::Method(fun))
                 } else if self.extract_bool("shorthand")? {
-                    return Ok(Prop::Shorthand(key.into_id()?));
+                    let id = key.into_id()?;
+                    if val.into_id()? != id {
+                        return type_error("shorthand property whose value is its key", Ty::Object);
+                    }
+                    return Ok(Prop::Shorthand(id));
                 } else {
                     PropVal::Init(val.into_expr()?)
                 }
-- 
2.43.0


From fdb265d53c07d9a341e68ed520b230dd41650571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 35/38] fix: refuse ESTree property keys that are neither
 identifiers nor literals

---
 crates/estree/src/obj.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 1bdfc4b..de513ce 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -67,6 +67,7 @@ impl IntoObj for Object {
             let id = self.into_id()?;
             return Ok(PropKey::Id(None, id.name.into_string()));
         }
+        self.expect_tag(Tag::Literal, "identifier or literal")?;
         match self.into_lit()? {
             Expr::Number(_, lit) => Ok(PropKey::Number(None, lit)),
             Expr::String(_, lit) => Ok(PropKey::String(None, lit)),
-- 
2.43.0


From a93c491fecd093f4c733fdb07e16629a9f9e1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 36/38] fix: refuse ESTree methods and accessors whose parts
 the tree cannot hold

A rest parameter of a setter, the parameters of a getter, the name of a method
and a generator flag on an accessor were dropped.
---
 crates/estree/src/obj.rs | 44 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index de513ce..eb2f183 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -1,12 +1,13 @@
 use easter::obj::{Prop, PropKey, PropVal};
 use easter::expr::Expr;
+use easter::fun::Fun;
 use unjson::ty::{Object, Ty};
 use unjson::ExtractField;
 
 use tag::{Tag, TagOf};
 use id::IntoId;
 use result::Result;
-use error::{type_error, array_error};
+use error::{type_error, array_error, node_type_error};
 use node::ExtractNode;
 use expr::IntoExpr;
 use fun::IntoFun;
@@ -16,11 +17,33 @@ pub trait IntoObj {
     fn into_prop_key(self) -> Result<PropKey>;
 }
 
+fn into_method<Id>(mut val: Object, id: Id) -> Result<Fun<Id>> {
+    val.expect_tag(Tag::FunctionExpression, "function expression")?;
+    if val.extract_id_opt("id")?.is_some() {
+        return type_error("function without a name", Ty::Object);
+    }
+    val.into_fun(id)
+}
+
+fn into_accessor(val: Object, arity: usize) -> Result<Fun<()>> {
+    let fun = into_method(val, ())?;
+    if fun.generator {
+        return type_error("function that is not a generator", Ty::Object);
+    }
+    if fun.params.rest.is_some() {
+        return node_type_error("identifier", Tag::RestElement);
+    }
+    if fun.params.list.len() != arity {
+        return array_error(arity, fun.params.list.len());
+    }
+    Ok(fun)
+}
+
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
         self.expect_tag(Tag::Property, "property")?;
         let key = self.extract_object("key")?;
-        let mut val = self.extract_object("value")?;
+        let val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
         if self.contains_key("computed") && self.extract_bool_opt("computed")?.unwrap_or(false) {
             return type_error("property key that is not computed", Ty::Object);
@@ -28,8 +51,7 @@ impl IntoObj for Object {
         let val = match &kind[..] {
             "init" => {
                 if self.extract_bool("method")? {
-                    val.expect_tag(Tag::FunctionExpression, "function expression")?;
-                    let fun = val.into_fun(key.into_prop_key()?)?;
+                    let fun = into_method(val, key.into_prop_key()?)?;
                     return Ok(Prop::Method(fun))
                 } else if self.extract_bool("shorthand")? {
                     let id = key.into_id()?;
@@ -42,19 +64,11 @@ impl IntoObj for Object {
                 }
             },
             "get" => {
-                val.expect_tag(Tag::FunctionExpression, "function expression")?;
-                let mut body = val.extract_object("body")?;
-                body.expect_tag(Tag::BlockStatement, "block statement")?;
-                PropVal::Get(None, body.extract_script("body")?)
+                PropVal::Get(None, into_accessor(val, 0)?.body)
             }
             "set" => {
-                val.expect_tag(Tag::FunctionExpression, "function expression")?;
-                let fun = val.into_fun(())?;
-                let params = fun.params.list;
-                if params.len() != 1 {
-                    return array_error(1, params.len());
-                }
-                let param = params.into_iter().next().unwrap();
+                let fun = into_accessor(val, 1)?;
+                let param = fun.params.list.into_iter().next().unwrap();
                 PropVal::Set(None, param, fun.body)
             }
             _ => { return type_error("'init', 'get', or 'set'", Ty::String); }
-- 
2.43.0


From cc84d41f13f450c2370cc7782ec6757930320306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 37/38] fix: name null among the types optional scalars may
 have

---
 crates/unjson/src/unjson.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index a7e9af4..344d230 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -183,7 +183,7 @@ impl Unjson for Value {
         match *self {
             Value::Bool(b) => Ok(Some(b)),
             Value::Null    => Ok(None),
-            _ => { return type_error("boolean", self.ty()); }
+            _ => { return type_error("boolean or null", self.ty()); }
         }
     }
 
@@ -198,7 +198,7 @@ impl Unjson for Value {
         match *self {
             Value::I64(i) => Ok(Some(i)),
             Value::Null   => Ok(None),
-            _ => { return type_error("i64", self.ty()); }
+            _ => { return type_error("i64 or null", self.ty()); }
         }
     }
 
@@ -213,7 +213,7 @@ impl Unjson for Value {
         match *self {
             Value::U64(u) => Ok(Some(u)),
             Value::Null   => Ok(None),
-            _ => { return type_error("u64", self.ty()); }
+            _ => { return type_error("u64 or null", self.ty()); }
         }
     }
 
@@ -228,7 +228,7 @@ impl Unjson for Value {
         match *self {
             Value::F64(f) => Ok(Some(f)),
             Value::Null   => Ok(None),
-            _ => { return type_error("f64", self.ty()); }
+            _ => { return type_error("f64 or null", self.ty()); }
         }
     }
 
@@ -247,7 +247,7 @@ impl Unjson for Value {
             Value::U64(u) => Ok(Some(u as f64)),
             Value::F64(f) => Ok(Some(f)),
             Value::Null   => Ok(None),
-            _ => { return type_error("number", self.ty()); }
+            _ => { return type_error("number or null", self.ty()); }
         }
     }
 }
-- 
2.43.0


From d8c447ba5e275b745bf327c1db126a3ec9ea8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 38/38] fix: read integers alike however they are stored

The get_* accessors converted between the representations of a number and the
others did not, so that the positive integers of a JSON text, which are stored
as u64, could not be taken as i64.
---
 crates/unjson/src/unjson.rs | 57 ++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index 344d230..4f4cd0e 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -72,27 +72,24 @@ impl ValueEx for Value {
     }
 
     fn as_i64_opt(&self) -> Result<Option<i64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::I64(ref v) => Some(*v),
-            _ => { return type_error("i64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => self.as_i64().ok_type("i64 or null", self.ty()).map(Some)
+        }
     }
 
     fn as_u64_opt(&self) -> Result<Option<u64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::U64(ref v) => Some(*v),
-            _ => { return type_error("u64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => self.as_u64().ok_type("u64 or null", self.ty()).map(Some)
+        }
     }
 
     fn as_f64_opt(&self) -> Result<Option<f64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::F64(ref v) => Some(*v),
-            _ => { return type_error("f64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => self.as_f64().ok_type("f64 or null", self.ty()).map(Some)
+        }
     }
 
     fn as_number_opt(&self) -> Result<Option<f64>> {
@@ -188,47 +185,35 @@ impl Unjson for Value {
     }
 
     fn to_i64(&self) -> Result<i64> {
-        match *self {
-            Value::I64(i) => Ok(i),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64().ok_type("i64", self.ty())
     }
 
     fn to_i64_opt(&self) -> Result<Option<i64>> {
         match *self {
-            Value::I64(i) => Ok(Some(i)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("i64 or null", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.as_i64().ok_type("i64 or null", self.ty()).map(Some)
         }
     }
 
     fn to_u64(&self) -> Result<u64> {
-        match *self {
-            Value::U64(u) => Ok(u),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64().ok_type("u64", self.ty())
     }
 
     fn to_u64_opt(&self) -> Result<Option<u64>> {
         match *self {
-            Value::U64(u) => Ok(Some(u)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("u64 or null", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.as_u64().ok_type("u64 or null", self.ty()).map(Some)
         }
     }
 
     fn to_f64(&self) -> Result<f64> {
-        match *self {
-            Value::F64(f) => Ok(f),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64().ok_type("f64", self.ty())
     }
 
     fn to_f64_opt(&self) -> Result<Option<f64>> {
         match *self {
-            Value::F64(f) => Ok(Some(f)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("f64 or null", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.as_f64().ok_type("f64 or null", self.ty()).map(Some)
         }
     }
 
-- 
2.43.0

