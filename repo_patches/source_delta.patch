From 7c99f4229283618daeef30347aa53d4f4f836b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 01/41] fix: report success only when no diagnostics were found

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From 466955cc7fedcd4f4468255bcb0e13bdd6ec0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 02/41] fix: name the expected token, not the token found
 instead

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..87ecd7d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -444,7 +444,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From 0703aadfaefb6f093c69b5cec11acbd2ba68e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 03/41] fix: report a missing semicolon before, not after, a
 following comment

---
 ginko/src/dts/tokens/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 87ecd7d..e3a0ed2 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -281,7 +281,6 @@ where
     }
 
     fn consume(&mut self) -> Option<Token> {
-        self.last_pos = self.pos();
         self.skip_whitespace();
         let ch = self.reader.peek()?;
         let start_pos = self.reader.pos();
@@ -494,6 +493,8 @@ where
     type Item = Token;
 
     fn next(&mut self) -> Option<Token> {
+        // skipped comments do not count as the last token
+        self.last_pos = self.pos();
         loop {
             let next = self.consume()?;
             if !matches!(next.kind, TokenKind::Comment(_)) {
-- 
2.43.0


From 9ad7fcc9f2918cab97e9dcb44d2dcee91ee4716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 04/41] fix: keep non-ASCII characters of string literals
 intact

---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index e3a0ed2..504575d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,12 +230,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(b'"');
                         is_escaped = false;
                     } else {
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         });
                     }
@@ -244,7 +244,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From 8fab21d76703576baf6d68c81b50a8216c59fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 05/41] fix: report strings, comments and references that are
 not terminated

---
 ginko/src/dts/tokens/lexer.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 504575d..f836092 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -79,23 +79,34 @@ where
         self.reader.pos()
     }
 
+    // A construct that is still open at the end of the file.
+    // Must not be dropped, otherwise this would not be noticed by the parser
+    fn unterminated(&self, start: Position, opening: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(opening),
+            source: self.source(),
+        }
+    }
+
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
     fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
-        match ch {
-            b'{' => {
+        match self.reader.peek() {
+            Some(b'{') => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
+                if self.reader.consume().is_none() {
+                    return Some(self.unterminated(start, b'&'));
+                }
                 Some(Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            Some(b'a'..=b'z' | b'A'..=b'Z') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
@@ -165,7 +176,9 @@ where
     fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'/'));
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
@@ -218,7 +231,9 @@ where
         let mut is_escaped: bool = false;
         let mut str: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'"'));
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
-- 
2.43.0


From ef5456dd89bff5fdda515f9b3f1523d1b098284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 06/41] fix: accept references to labels that start with an
 underscore

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index f836092..a1f9933 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -106,7 +106,7 @@ where
                     source: self.source(),
                 })
             }
-            Some(b'a'..=b'z' | b'A'..=b'Z') => {
+            Some(b'a'..=b'z' | b'A'..=b'Z' | b'_') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From c7783bf221162c41cdd91bd6db95d94eb99b8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 07/41] fix: count positions in UTF-16 code units instead of
 bytes

---
 ginko/src/dts/reader.rs       |  4 ++++
 ginko/src/dts/tokens/lexer.rs | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..dc9113d 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,6 +52,10 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
+            // UTF-8 continuation bytes do not advance the position
+            0x80..=0xBF => {}
+            // Characters outside the BMP are encoded using two UTF-16 code units
+            0xF0.. => self.pos = Position::new(self.pos.line(), self.pos.character() + 2),
             _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
         }
         Some(ch)
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index a1f9933..4528a66 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -372,7 +372,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // the token consists of the whole character
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From 45ec78bd4ab44f8279fd152469d078e2b4498ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 08/41] fix: keep the name of a property that follows a missing
 semicolon

---
 ginko/src/dts/tokens/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 4528a66..a0e0b60 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -316,7 +316,9 @@ where
             }
         }
         match ch {
-            b'a'..=b'z' | b'A'..=b'Z' | b'_' => Some(self.ident_or_label(start_pos)),
+            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'.' | b'+' | b'-' | b'#' | b'?' => {
+                Some(self.ident_or_label(start_pos))
+            }
             b'0'..=b'9' => Some(self.number(start_pos)),
             b'&' => {
                 self.reader.skip();
-- 
2.43.0


From 0b45e59106a88181e7122a49d9a63bcf08e9fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 09/41] fix: do not accept a plus sign as digit of a byte
 string

---
 ginko/src/dts/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..f53d4a7 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -284,14 +284,14 @@ where
                     return Ok(WithToken::new(vec![], tok));
                 }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
-                for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
-                    match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
-                        Ok(byte) => bytes.push(byte),
-                        Err(err) => {
-                            self.diagnostics.push(Diagnostic::parse_int_error(
-                                tok.span(),
-                                tok.source(),
-                                err,
+                for (first, second) in raw_str.chars().tuples() {
+                    match (first.to_digit(16), second.to_digit(16)) {
+                        (Some(high), Some(low)) => bytes.push((high * 16 + low) as u8),
+                        _ => {
+                            self.diagnostics.push(Diagnostic::from_token(
+                                tok.clone(),
+                                ErrorCode::IntError,
+                                "invalid digit found in string",
                             ));
                             return Ok(WithToken::new(vec![], tok));
                         }
-- 
2.43.0


From 08209259e979d0c829bf5bc0208dae439424ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 10/41] fix: accept names of properties that start with a digit

---
 ginko/src/dts/parser.rs       |  8 +++++---
 ginko/src/dts/tokens/lexer.rs | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index f53d4a7..064b535 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -446,7 +446,7 @@ where
 
     pub fn property_name(&mut self) -> Result<WithToken<String>> {
         let tok = self.lexer.expect_next()?;
-        if let TokenKind::Ident(value) = tok.kind.clone() {
+        if let TokenKind::Ident(value) | TokenKind::UnparsedNumber(value) = tok.kind.clone() {
             self.check_is_property_name(tok.span(), &value);
             return Ok(WithToken::new(value, tok));
         }
@@ -459,7 +459,7 @@ where
 
     pub fn node_name(&mut self) -> Result<WithToken<NodeName>> {
         let tok = self.lexer.expect_next()?;
-        if let TokenKind::Ident(value) = tok.kind.clone() {
+        if let TokenKind::Ident(value) | TokenKind::UnparsedNumber(value) = tok.kind.clone() {
             let node_name = NodeName::from(value);
             self.check_is_node_name(tok.span(), &node_name);
             return Ok(WithToken::new(node_name, tok));
@@ -507,7 +507,9 @@ where
                 _ => (tok, None),
             };
             let ident = match &tok.kind {
-                TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
+                TokenKind::Ident(string) | TokenKind::UnparsedNumber(string) => {
+                    WithToken::new(string.clone(), tok)
+                }
                 TokenKind::CloseBrace => {
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index a0e0b60..2ded82a 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -314,6 +314,16 @@ where
             {
                 return Some(self.ident_or_label(start_pos));
             }
+            if ch.is_ascii_digit() {
+                let mut tok = self.ident_or_label(start_pos);
+                if let Ident(name) = &tok.kind {
+                    // might also be the number of a memory reservation
+                    if name.bytes().all(|ch| ch.is_ascii_alphanumeric()) {
+                        tok.kind = UnparsedNumber(name.clone());
+                    }
+                }
+                return Some(tok);
+            }
         }
         match ch {
             b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'.' | b'+' | b'-' | b'#' | b'?' => {
-- 
2.43.0


From 1afce7a83b0211ec529f3b8fe59bfd879afe5bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 11/41] fix: do not report balanced parentheses at the end of
 the file as unbalanced

---
 ginko/src/dts/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 064b535..9943967 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -216,8 +216,7 @@ where
                 }
             }
             TokenKind::OpenParen => {
-                self.skip_expression_starting_with_paren();
-                if self.lexer.peek().is_none() {
+                if !self.skip_expression_starting_with_paren() {
                     self.diagnostics.push(Diagnostic::from_token(
                         tok,
                         ErrorCode::UnbalancedParentheses,
@@ -313,7 +312,8 @@ where
         }
     }
 
-    fn skip_expression_starting_with_paren(&mut self) {
+    /// Returns whether the closing parenthesis was found
+    fn skip_expression_starting_with_paren(&mut self) -> bool {
         let mut depth = 1;
         loop {
             let peeked = self.lexer.peek();
@@ -336,10 +336,10 @@ where
                 depth -= 1;
                 self.skip_tok();
                 if depth == 0 {
-                    return;
+                    return true;
                 }
             } else if peeked.is_none() {
-                return;
+                return false;
             } else {
                 self.skip_tok();
             }
-- 
2.43.0


From 5da2b6be7da2237615f17116b6a95fd8e45fddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 12/41] fix: report missing numbers of memory reservations
 within the line

---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 9943967..0b4a636 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -263,7 +263,7 @@ where
                 }
             }
             _ => Err(Diagnostic::expected(
-                self.lexer.last_pos().offset_by_char(1).as_span(),
+                self.lexer.last_pos().as_span(),
                 self.lexer.source(),
                 &[TokenKind::UnparsedNumber("".to_string())],
             )),
-- 
2.43.0


From 81872d7ad55b888109d04341038721f79ed4341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 13/41] fix: display bytes with two digits

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..4164037 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -258,7 +258,7 @@ impl Display for PropertyValue {
                 write!(f, "[")?;
                 for (i, numbers) in strings.iter().enumerate() {
                     for num in &numbers.item {
-                        write!(f, "{num:2x}")?;
+                        write!(f, "{num:02x}")?;
                     }
                     if i != strings.len() - 1 {
                         write!(f, " ")?;
-- 
2.43.0


From d4c9c454450e8b54d298b295a1f2a74b72fa051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 14/41] fix: report a version header that is placed after a
 deleted node

---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..b954aea 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -146,6 +146,7 @@ impl Analysis {
                     AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
                     AnyDirective::DeletedNode(_, reference) => {
                         self.resolve_reference(&mut ctx, reference);
+                        ctx.first_non_include = true
                     }
                 },
                 Primary::Root(root_node) => {
-- 
2.43.0


From b2c1b6c511b0346d029c5b81d9727756bbc244a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 15/41] fix: report labels and omit directives that are not
 followed by anything

---
 ginko/src/dts/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 0b4a636..9a4f164 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -511,6 +511,13 @@ where
                     WithToken::new(string.clone(), tok)
                 }
                 TokenKind::CloseBrace => {
+                    if label.is_some() || omit_if_no_ref.is_some() {
+                        self.diagnostics.push(Diagnostic::expected(
+                            tok.span(),
+                            tok.source(),
+                            &[TokenKind::Ident("".to_string())],
+                        ));
+                    }
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From 3aaed12bbe9a04834f056f5f6357f074a89fbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 16/41] fix: properties without a semicolon extend to the end
 of their value

---
 ginko/src/dts/ast.rs    | 12 ++++++++++++
 ginko/src/dts/parser.rs |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 4164037..ddcd06f 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -226,6 +226,18 @@ impl HasSpan for PropertyValue {
     }
 }
 
+impl PropertyValue {
+    /// The last token that is part of this value
+    pub fn end_token(&self) -> Token {
+        match self {
+            PropertyValue::String(str) => str.token.clone(),
+            PropertyValue::Cells(_, _, end) => end.clone(),
+            PropertyValue::Reference(reference) => reference.token.clone(),
+            PropertyValue::ByteStrings(_, _, end) => end.clone(),
+        }
+    }
+}
+
 impl HasSource for PropertyValue {
     fn source(&self) -> Arc<StdPath> {
         match self {
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 9a4f164..7f25b17 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -548,7 +548,9 @@ where
                     self.skip_tok();
                     self.check_is_property_name(ident.span(), &ident);
                     let values = self.property_values()?;
-                    let end_tok = self.expect_semicolon()?.unwrap_or(cloned_tok);
+                    let end_tok = self.expect_semicolon()?.unwrap_or_else(|| {
+                        values.last().map_or(cloned_tok, PropertyValue::end_token)
+                    });
                     if let Some(omit_if_no_ref) = omit_if_no_ref {
                         self.diagnostics.push(Diagnostic::new(
                             omit_if_no_ref.span,
-- 
2.43.0


From 732496fa49faad3917fe101c5b2dbceb0e2b2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 17/41] fix: report illegal characters in unit addresses and
 paths where they are

---
 ginko/src/dts/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 7f25b17..b9d300d 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -141,7 +141,8 @@ where
         );
         if let Some(unit_address) = &name.unit_address {
             self.check_ident(
-                span,
+                // the unit address comes after the name and the '@' sign
+                span.extend_start(name.name.chars().count() as i32 + 1),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -179,9 +180,14 @@ where
                     ));
                 }
                 let path = Path::from(path.as_str());
+                let first_diagnostic = self.diagnostics.len();
                 for el in path.iter() {
                     self.check_is_node_name(token.span(), el);
                 }
+                // The position of the elements within the path is not known
+                for diagnostic in &mut self.diagnostics[first_diagnostic..] {
+                    diagnostic.span = token.span();
+                }
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
-- 
2.43.0


From 3ce0cd9876ccd22c22e9a5f630cb23f665123d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 18/41] fix: do not exhaust the stack on deeply nested nodes

---
 ginko/src/dts/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b9d300d..74c37e4 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -26,8 +26,13 @@ where
     lexer: PeekingLexer<R>,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
+    nesting: usize,
 }
 
+/// The number of nodes that may be nested within each other.
+/// Without a limit, a document could exhaust the stack.
+const MAX_NESTING: usize = 64;
+
 type Result<T> = std::result::Result<T, Diagnostic>;
 
 impl<R> Parser<R>
@@ -39,6 +44,7 @@ where
             lexer: PeekingLexer::from(lexer),
             diagnostics: vec![],
             context,
+            nesting: 0,
         }
     }
 }
@@ -54,6 +60,7 @@ impl Parser<ByteReader> {
             lexer: lexer.into(),
             diagnostics: vec![],
             context,
+            nesting: 0,
         }
     }
 }
@@ -542,7 +549,17 @@ where
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
                     self.check_is_node_name(node_name.span(), &node_name);
+                    if self.nesting == MAX_NESTING {
+                        return Err(Diagnostic::new(
+                            node_name.span(),
+                            self.lexer.source(),
+                            ErrorCode::ParserError,
+                            "Nodes are nested too deeply",
+                        ));
+                    }
+                    self.nesting += 1;
                     let payload = self.node_payload()?;
+                    self.nesting -= 1;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
                         name: node_name,
-- 
2.43.0


From 643bebc95e45a61588be4b67ad5801a773fdcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 19/41] fix: render diagnostics that span multiple lines or
 follow non-ASCII text

---
 ginko/src/dts/diagnostics.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..d15d4d6 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -168,22 +168,39 @@ pub struct DiagnosticPrinter<'a> {
     pub severity_map: SeverityMap,
 }
 
+/// The index of the character at a position within a line, given in UTF-16 code units
+fn char_index(line: &str, character: u32) -> usize {
+    let mut units = 0;
+    line.chars()
+        .take_while(|ch| {
+            units += ch.len_utf16() as u32;
+            units <= character
+        })
+        .count()
+}
+
 impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
             .get(start.line() as usize)
             .unwrap_or(&empty_string)
             .clone();
+        let start_idx = char_index(&line, start.character());
+        // Only the first line is shown when the span extends over multiple lines
+        let end_idx = if start.line() == end.line() {
+            char_index(&line, end.character())
+        } else {
+            line.chars().count()
+        };
         // take tabs into consideration
         let line_empty: String = line
             .chars()
             .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })
-            .take(start.character() as usize)
+            .take(start_idx)
             .collect();
 
         let prefix = format!("{}", start.line() + 1);
@@ -198,18 +215,8 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
-        } else {
-            end.character() - start.character()
-        };
-        write!(
-            f,
-            "{} | {}{}",
-            prefix_empty,
-            line_empty,
-            "^".repeat(len as usize)
-        )?;
+        let len = end_idx.saturating_sub(start_idx).max(1);
+        write!(f, "{} | {}{}", prefix_empty, line_empty, "^".repeat(len))?;
         write!(f, " {}", diagnostic.message)?;
         Ok(())
     }
-- 
2.43.0


From f8c18e73ed9bcc5b6a66af33aaf830a89198a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 20/41] fix: only find references of directives that are under
 the cursor

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From bcbc7f7fc2d735a6406d04b7577557f7b4a6f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 21/41] fix: labels keep referring to nodes that are re-opened
 without the label

---
 ginko/src/dts/analysis.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index b954aea..87f533f 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -14,7 +14,8 @@ use std::sync::Arc;
 /// Used when analyzing a device-tree
 #[derive(Clone)]
 enum Labeled {
-    Node(Arc<Node>),
+    // The path is kept as the node may be re-opened without the label
+    Node(Path, Arc<Node>),
     #[allow(unused)]
     Property(Arc<Property>),
 }
@@ -47,7 +48,7 @@ pub struct AnalysisResult {
 impl AnalysisContext {
     pub fn get_node_by_label(&self, label: &str) -> Option<&Arc<Node>> {
         match self.labels.get(label) {
-            Some(Labeled::Node(node)) => Some(node),
+            Some(Labeled::Node(_, node)) => Some(node),
             _ => None,
         }
     }
@@ -82,9 +83,10 @@ impl FileContext<'_> {
     }
 
     pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+        match self.labels.get(label) {
+            Some(Labeled::Node(path, node)) => Some((path, node)),
+            _ => None,
+        }
     }
 }
 
@@ -281,8 +283,10 @@ impl Analysis {
 
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
-            ctx.labels
-                .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.labels.insert(
+                label.item().clone(),
+                Labeled::Node(path.clone(), node.clone()),
+            );
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From e67c5d24ae4aa64bbc0a20b1d5604255a1fcc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 22/41] fix: nodes that extend a reference in an include belong
 to that node

---
 ginko/src/dts/analysis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 87f533f..cb817ca 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -252,12 +252,8 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        // For an include, this is the 'root' path if the reference is unknown
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From d9ef88ccf6a1e6fea65fe1497544f51f48955489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 23/41] fix: analyze files after all of their includes and skip
 unreadable includes

---
 ginko/src/dts/project.rs | 53 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..4e4456e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -127,35 +127,36 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed,
+    /// i.e., every file comes after all the files that it includes.
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut visited = HashSet::new();
+        let mut order = vec![];
+        for path in self.files.keys().sorted() {
+            self.visit_includes_first(path, &mut visited, &mut order);
+        }
+        order
+    }
+
+    fn visit_includes_first(
+        &self,
+        path: &Path,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        // Includes that could not be read are not part of this project
+        let Some(file) = self.files.get(path) else {
+            return;
+        };
+        if !visited.insert(path.to_owned()) {
+            return;
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
-                }
+        for include in file.file.iter().flat_map(|file| &file.elements) {
+            if let Some(Ok(include)) = include.as_include().map(|include| include.path()) {
+                self.visit_includes_first(&include, visited, order);
             }
         }
-        current_order
+        order.push(path.to_owned());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 74f2177c344eced2de45daae775c454c5d1356ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 24/41] fix: do not analyze cyclic includes using outdated
 results

---
 ginko/src/dts/project.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 4e4456e..c494c42 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -111,6 +111,12 @@ impl Project {
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
 
+        // Results of an earlier analysis must not influence this one.
+        for proj_file in self.files.values_mut() {
+            proj_file.context = None;
+            proj_file.analysis_diagnostics.clear();
+        }
+
         let keys = self.compute_key_order();
 
         let mut analysis = Analysis::new();
-- 
2.43.0


From b39cd4b95f51b62c655cbe1c9ef39a1e03bdbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 25/41] fix: do not panic for documents that are not present on
 disk

---
 ginko/src/dts/project.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index c494c42..ffaac72 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -71,6 +71,11 @@ impl ProjectFile {
     }
 }
 
+/// The path that identifies a file, which might not (or no longer) be present on disk.
+fn normalize(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -102,11 +107,8 @@ impl Project {
     /// * file_name: The name of the file.
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
-    ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = normalize(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -166,9 +168,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&normalize(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -297,10 +297,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&normalize(path))
     }
 }
 
-- 
2.43.0


From 456e41266e39ef7d5481d5f589d8341a67180075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 26/41] fix: keep diagnostics that were found before an
 unrecoverable error

---
 ginko/src/dts/project.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index ffaac72..3327ca8 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -267,8 +271,11 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                parser.diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(parser.diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From dfd56c061462a324916df9433f1541a076c7d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 27/41] fix: report includes that cannot be read once instead
 of twice

---
 ginko/src/dts/analysis.rs |  4 ++++
 ginko/src/dts/project.rs  | 25 +++++++++----------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index cb817ca..5db75bc 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -7,6 +7,7 @@ use crate::dts::error_codes::ErrorCode;
 use crate::dts::import_guard::ImportGuard;
 use crate::dts::{Diagnostic, FileType, Position, Project};
 use std::collections::HashMap;
+use std::fs;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
 
@@ -194,6 +195,9 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
+            if let Err(err) = fs::read_to_string(&path) {
+                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
+            }
             return;
         };
         if proj_file.has_errors(&ctx.project.severities) {
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3327ca8..a113f8f 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -264,7 +264,7 @@ impl Project {
                 file.elements
                     .iter()
                     .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include));
+                    .for_each(|include| self.parse_included_file(include));
                 self.files.insert(
                     file_name,
                     ProjectFile::parsed(parser.diagnostics, file, file_type, text),
@@ -280,26 +280,19 @@ impl Project {
         };
     }
 
-    fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        let canonicalized_path = match include.path() {
-            Ok(path) => path,
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+    /// Parses an included file.
+    /// Files that cannot be read are reported when analyzing the include.
+    fn parse_included_file(&mut self, include: &Include) {
+        let Ok(canonicalized_path) = include.path() else {
+            return;
         };
         // Avoids duplicate insertion and cyclic dependencies
         if self.files.contains_key(&canonicalized_path) {
             return;
         }
-        match fs::read_to_string(&canonicalized_path) {
-            Ok(text) => {
-                let typ = FileType::from(canonicalized_path.as_path());
-                self.parse_file(canonicalized_path, text, typ);
-            }
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err))
-            }
+        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
+            let typ = FileType::from(canonicalized_path.as_path());
+            self.parse_file(canonicalized_path, text, typ);
         }
     }
 
-- 
2.43.0


From 083df4105680dac4a6d73888979427e5d76783a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 28/41] fix: use the contents on disk of closed files that are
 still included

---
 ginko/src/dts/project.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index a113f8f..8341471 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -116,7 +116,10 @@ impl Project {
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
+        self.analyze();
+    }
 
+    fn analyze(&mut self) {
         // Results of an earlier analysis must not influence this one.
         for proj_file in self.files.values_mut() {
             proj_file.context = None;
@@ -172,7 +175,23 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        self.files.remove(&normalize(path));
+        let path = normalize(path);
+        self.files.remove(&path);
+        // Files that still include the file see the contents on disk.
+        let is_included = self
+            .files
+            .values()
+            .flat_map(|file| &file.file)
+            .flat_map(|file| &file.elements)
+            .filter_map(|element| element.as_include())
+            .any(|include| include.path().is_ok_and(|include| include == path));
+        if is_included {
+            if let Ok(text) = fs::read_to_string(&path) {
+                let typ = FileType::from(path.as_path());
+                self.parse_file(path, text, typ);
+            }
+        }
+        self.analyze();
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
-- 
2.43.0


From a995b120404fbeeef6850eca7f7d5cc55bf36fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 29/41] fix: ignore invalid include paths instead of using the
 working directory

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 8341471..b504bf3 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -91,7 +91,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
     }
 
-- 
2.43.0


From 053f17499f844b26b3a802ac10052568093b9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 30/41] fix: apply changed include paths to files that are
 already present

---
 ginko/src/dts/project.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index b504bf3..b35aac2 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -93,6 +93,15 @@ impl Project {
             .iter()
             .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
+        // Includes of files that are already present might resolve differently.
+        for path in self.files.keys().cloned().sorted() {
+            let Some(file) = self.files.get(&path) else {
+                continue;
+            };
+            let (text, file_type) = (file.source.clone(), file.file_type);
+            self.parse_file(path, text, file_type);
+        }
+        self.analyze();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
-- 
2.43.0


From 4c04ccdd359ab41f884ee86831b15960378e0c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 31/41] fix: apply the last of multiple content changes and
 ignore empty changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..80df2e7 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Each change contains the full text, the last one is the current text
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 96ff97ba7fff142a44c1634471d71f64ec5a97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 32/41] fix: go to the start of an included file

---
 ginko_ls/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 80df2e7..02300ae 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -208,7 +208,7 @@ impl LanguageServer for Backend {
                 {
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0


From 68349172beab489ace92a81a9a4c5264690bd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 33/41] fix: publish diagnostics that change when a document is
 closed

---
 ginko_ls/src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 02300ae..fcf460b 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -173,6 +173,7 @@ impl LanguageServer for Backend {
             return;
         };
         self.project.write().remove_file(&file_path);
+        self.publish_diagnostics().await
     }
 
     async fn goto_definition(
-- 
2.43.0


From aa1155f7354b2867c3551ef4937063e7a9b57095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 34/41] fix: respect include paths that are given to the
 language server

---
 ginko_ls/src/main.rs   |  5 +++--
 ginko_ls/src/server.rs | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..a20f1c2 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let args = Args::parse();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,7 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let include_paths = args.include.unwrap_or_default();
+    let (service, socket) = LspService::new(|client| server::Backend::new(client, include_paths));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index fcf460b..692d1f3 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -16,16 +16,26 @@ pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
     severities: SeverityMap,
+    /// Include paths given on the command line.
+    /// These are used in addition to the configured ones.
+    include_paths: Vec<String>,
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, include_paths: Vec<String>) -> Backend {
         Backend {
             client,
             project: RwLock::new(Project::default()),
             severities: SeverityMap::default(),
+            include_paths,
         }
     }
+
+    fn configure(&self, config: ProjectConfig) {
+        let mut include_paths = config.includes;
+        include_paths.extend(self.include_paths.iter().cloned());
+        self.project.write().set_include_paths(include_paths);
+    }
 }
 
 #[derive(Deserialize, Serialize, Default, Debug)]
@@ -110,7 +120,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -128,7 +138,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 3aea151b30ad74df069794b3f7e4bd53749681e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 35/41] fix: check cells against the size given by the bits
 directive

---
 ginko/src/dts/ast.rs    |  2 +-
 ginko/src/dts/parser.rs | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index ddcd06f..939a0f2 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -191,7 +191,7 @@ impl Display for Reference {
 
 #[derive(Eq, PartialEq, Debug)]
 pub enum Cell {
-    Number(WithToken<u32>),
+    Number(WithToken<u64>),
     Reference(WithToken<Reference>),
     Expression,
 }
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 74c37e4..49a1ea1 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -200,21 +200,28 @@ where
         }
     }
 
-    fn number_u32(&mut self) -> Result<Cell> {
+    /// A cell whose size is given in bits
+    fn cell(&mut self, bits: u32) -> Result<Cell> {
         let tok = self.lexer.expect_next()?;
         match &tok.kind {
             TokenKind::Ref(reference) => {
                 Ok(Cell::Reference(self.reference(tok.clone(), reference)))
             }
             TokenKind::UnparsedNumber(num) => {
-                let num = if num.len() == 1 {
-                    num.parse::<u32>()
+                let (digits, radix) = if num.len() == 1 {
+                    (num.as_str(), 10)
                 } else if num.starts_with("0x") {
-                    u32::from_str_radix(&num.as_str()[2..], 16)
+                    (&num.as_str()[2..], 16)
                 } else if num.starts_with('0') {
-                    u32::from_str_radix(&num.as_str()[1..], 8)
+                    (&num.as_str()[1..], 8)
                 } else {
-                    num.parse::<u32>()
+                    (num.as_str(), 10)
+                };
+                let num = match bits {
+                    8 => u8::from_str_radix(digits, radix).map(u64::from),
+                    16 => u16::from_str_radix(digits, radix).map(u64::from),
+                    64 => u64::from_str_radix(digits, radix),
+                    _ => u32::from_str_radix(digits, radix).map(u64::from),
                 };
                 match num {
                     Ok(num) => Ok(Cell::Number(WithToken::new(num, tok))),
@@ -360,6 +367,7 @@ where
     }
 
     pub fn property_value(&mut self) -> Result<PropertyValue> {
+        let mut bits = 32;
         if matches!(
             self.lexer.peek(),
             Some(Token {
@@ -369,12 +377,13 @@ where
         ) {
             self.skip_tok();
             let width = self.lexer.expect_next()?;
-            if !matches!(width.kind, TokenKind::UnparsedNumber(_)) {
-                self.diagnostics.push(Diagnostic::expected(
+            match &width.kind {
+                TokenKind::UnparsedNumber(width) => bits = width.parse().unwrap_or(bits),
+                _ => self.diagnostics.push(Diagnostic::expected(
                     width.span(),
                     width.source(),
                     &[TokenKind::UnparsedNumber("".to_string())],
-                ))
+                )),
             }
         }
         let tok = self.lexer.expect_next()?;
@@ -392,7 +401,7 @@ where
                         break;
                     }
 
-                    match self.number_u32() {
+                    match self.cell(bits) {
                         Ok(numb) => cells.push(numb),
                         Err(err) => self.diagnostics.push(err),
                     }
-- 
2.43.0


From 9c2ff79b1d6dc24b9a45fdc2145321f164d9917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 36/41] fix: do not hide an illegal first character behind the
 length warning

---
 ginko/src/dts/parser.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 49a1ea1..baf4d89 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -95,16 +95,6 @@ where
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
             ));
-        } else if str.len() > 31 {
-            self.diagnostics.push(Diagnostic::new(
-                span,
-                self.lexer.source(),
-                ErrorCode::NameTooLong,
-                format!(
-                    "{name_context} should only have 31 characters but has {} characters",
-                    str.len()
-                ),
-            ))
         } else if str.is_empty() {
             self.diagnostics.push(Diagnostic::new(
                 span,
@@ -122,6 +112,16 @@ where
                     str.chars().next().unwrap()
                 ),
             ))
+        } else if str.len() > 31 {
+            self.diagnostics.push(Diagnostic::new(
+                span,
+                self.lexer.source(),
+                ErrorCode::NameTooLong,
+                format!(
+                    "{name_context} should only have 31 characters but has {} characters",
+                    str.len()
+                ),
+            ))
         }
     }
 
-- 
2.43.0


From 4e29e9629298af14fcd1e761ae8b91caba06fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 37/41] fix: do not exhaust the stack on long chains of
 includes

---
 ginko/src/dts/project.rs | 86 +++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index b35aac2..a8f4f4c 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -1,5 +1,5 @@
 use crate::dts::analysis::{Analysis, AnalysisContext};
-use crate::dts::ast::{DtsFile, Include, Reference};
+use crate::dts::ast::{DtsFile, Reference};
 use crate::dts::data::HasSource;
 use crate::dts::error_codes::SeverityMap;
 use crate::dts::reader::ByteReader;
@@ -168,19 +168,29 @@ impl Project {
         visited: &mut HashSet<PathBuf>,
         order: &mut Vec<PathBuf>,
     ) {
-        // Includes that could not be read are not part of this project
-        let Some(file) = self.files.get(path) else {
-            return;
-        };
-        if !visited.insert(path.to_owned()) {
-            return;
-        }
-        for include in file.file.iter().flat_map(|file| &file.elements) {
-            if let Some(Ok(include)) = include.as_include().map(|include| include.path()) {
-                self.visit_includes_first(&include, visited, order);
+        // An explicit stack, as chains of includes can be long.
+        // The flag tells whether all includes of the file were visited.
+        let mut stack = vec![(path.to_owned(), false)];
+        while let Some((path, includes_visited)) = stack.pop() {
+            if includes_visited {
+                order.push(path);
+                continue;
+            }
+            // Includes that could not be read are not part of this project
+            let Some(file) = self.files.get(&path) else {
+                continue;
+            };
+            if !visited.insert(path.clone()) {
+                continue;
             }
+            stack.push((path, true));
+            let elements = file.file.iter().flat_map(|file| &file.elements);
+            let includes = elements
+                .filter_map(|element| element.as_include()?.path().ok())
+                .map(|include| (include, false))
+                .collect_vec();
+            stack.extend(includes.into_iter().rev());
         }
-        order.push(path.to_owned());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
@@ -276,7 +286,32 @@ impl Project {
         }
     }
 
+    /// Parses a file and all files it includes.
+    /// Included files that are already present are not parsed again.
     fn parse_file(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
+        let mut includes = self.parse_single_file(file_name, text, file_type);
+        includes.reverse();
+        while let Some(include) = includes.pop() {
+            // Avoids duplicate insertion and cyclic dependencies
+            if self.files.contains_key(&include) {
+                continue;
+            }
+            // Files that cannot be read are reported when analyzing the include.
+            if let Ok(text) = fs::read_to_string(&include) {
+                let typ = FileType::from(include.as_path());
+                let nested = self.parse_single_file(include, text, typ);
+                includes.extend(nested.into_iter().rev());
+            }
+        }
+    }
+
+    /// Parses a file and returns the paths of the files it includes.
+    fn parse_single_file(
+        &mut self,
+        file_name: PathBuf,
+        text: String,
+        file_type: FileType,
+    ) -> Vec<PathBuf> {
         let reader = ByteReader::from_string(text.clone());
         let lexer = Lexer::new(reader, file_name.clone().into());
         // add the file's directory to the include paths to allow local includes
@@ -287,16 +322,16 @@ impl Project {
         let mut parser = Parser::new(lexer, ParserContext { include_paths });
         match parser.file() {
             Ok(file) => {
-                // insert dummy file to be defined so that no cyclic dependency can occur.
-                self.files.insert(file_name.clone(), ProjectFile::default());
-                file.elements
+                let includes = file
+                    .elements
                     .iter()
-                    .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(include));
+                    .filter_map(|primary| primary.as_include()?.path().ok())
+                    .collect();
                 self.files.insert(
                     file_name,
                     ProjectFile::parsed(parser.diagnostics, file, file_type, text),
                 );
+                includes
             }
             Err(err) => {
                 parser.diagnostics.push(err);
@@ -304,23 +339,8 @@ impl Project {
                     file_name,
                     ProjectFile::unrecoverable(parser.diagnostics, text, file_type),
                 );
+                vec![]
             }
-        };
-    }
-
-    /// Parses an included file.
-    /// Files that cannot be read are reported when analyzing the include.
-    fn parse_included_file(&mut self, include: &Include) {
-        let Ok(canonicalized_path) = include.path() else {
-            return;
-        };
-        // Avoids duplicate insertion and cyclic dependencies
-        if self.files.contains_key(&canonicalized_path) {
-            return;
-        }
-        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
-            let typ = FileType::from(canonicalized_path.as_path());
-            self.parse_file(canonicalized_path, text, typ);
         }
     }
 
-- 
2.43.0


From e1f97bbdbbfacf36f19dab096387c27779510c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 38/41] fix: do not read includes that are not regular files

---
 ginko/src/dts/analysis.rs |  4 ++--
 ginko/src/dts/project.rs  | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 5db75bc..0770560 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -5,9 +5,9 @@ use crate::dts::ast::{
 use crate::dts::data::{HasSource, HasSpan, Span};
 use crate::dts::error_codes::ErrorCode;
 use crate::dts::import_guard::ImportGuard;
+use crate::dts::project::read_included_file;
 use crate::dts::{Diagnostic, FileType, Position, Project};
 use std::collections::HashMap;
-use std::fs;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
 
@@ -195,7 +195,7 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
-            if let Err(err) = fs::read_to_string(&path) {
+            if let Err(err) = read_included_file(&path) {
                 ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
             }
             return;
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index a8f4f4c..ae359d7 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -80,6 +80,16 @@ fn normalize(path: &Path) -> PathBuf {
     dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
 }
 
+/// Reads a file that is included by another file.
+/// Reading from anything special, such as a pipe or a device, could block or never end.
+pub(crate) fn read_included_file(path: &Path) -> io::Result<String> {
+    let file_type = fs::metadata(path)?.file_type();
+    if !file_type.is_file() && !file_type.is_dir() {
+        return Err(io::Error::other("not a regular file"));
+    }
+    fs::read_to_string(path)
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -205,7 +215,7 @@ impl Project {
             .filter_map(|element| element.as_include())
             .any(|include| include.path().is_ok_and(|include| include == path));
         if is_included {
-            if let Ok(text) = fs::read_to_string(&path) {
+            if let Ok(text) = read_included_file(&path) {
                 let typ = FileType::from(path.as_path());
                 self.parse_file(path, text, typ);
             }
@@ -297,7 +307,7 @@ impl Project {
                 continue;
             }
             // Files that cannot be read are reported when analyzing the include.
-            if let Ok(text) = fs::read_to_string(&include) {
+            if let Ok(text) = read_included_file(&include) {
                 let typ = FileType::from(include.as_path());
                 let nested = self.parse_single_file(include, text, typ);
                 includes.extend(nested.into_iter().rev());
-- 
2.43.0


From aadd36398e32cd429bf185bbe6fc273c1baa6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 39/41] fix: always report the same cycle of includes

---
 ginko/src/dts/import_guard.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..8b05a7c 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
 use std::fmt::Debug;
 use std::hash::Hash;
 
@@ -23,15 +23,16 @@ impl<V> CyclicDependencyError<V> {
 #[derive(Default, Debug)]
 pub struct ImportGuard<V>
 where
-    V: Hash + Eq + Clone,
+    V: Hash + Ord + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    // Ordered so that always the same cycle is reported
+    nodes: HashMap<V, BTreeSet<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
 impl<V> ImportGuard<V>
 where
-    V: Hash + Eq + Clone,
+    V: Hash + Ord + Clone,
 {
     /// Adds an element to the checker. This will return `Ok(())`,
     /// if there are no cyclic dependencies and an error containing the import cycle, if there are
-- 
2.43.0


From 406138e5d5d69cb509cc30da31b1147057985e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:29 +0000
Subject: [PATCH 40/41] fix: read the width of a bits directive as an integer
 and report unsupported widths

---
 ginko/src/dts/parser.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index baf4d89..559dc9d 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -35,6 +35,19 @@ const MAX_NESTING: usize = 64;
 
 type Result<T> = std::result::Result<T, Diagnostic>;
 
+/// The digits of an integer literal without its prefix, and the radix that the prefix stands for
+fn digits_and_radix(num: &str) -> (&str, u32) {
+    if num.len() == 1 {
+        (num, 10)
+    } else if num.starts_with("0x") {
+        (&num[2..], 16)
+    } else if num.starts_with('0') {
+        (&num[1..], 8)
+    } else {
+        (num, 10)
+    }
+}
+
 impl<R> Parser<R>
 where
     R: Reader + Sized,
@@ -208,15 +221,7 @@ where
                 Ok(Cell::Reference(self.reference(tok.clone(), reference)))
             }
             TokenKind::UnparsedNumber(num) => {
-                let (digits, radix) = if num.len() == 1 {
-                    (num.as_str(), 10)
-                } else if num.starts_with("0x") {
-                    (&num.as_str()[2..], 16)
-                } else if num.starts_with('0') {
-                    (&num.as_str()[1..], 8)
-                } else {
-                    (num.as_str(), 10)
-                };
+                let (digits, radix) = digits_and_radix(num);
                 let num = match bits {
                     8 => u8::from_str_radix(digits, radix).map(u64::from),
                     16 => u16::from_str_radix(digits, radix).map(u64::from),
@@ -378,7 +383,22 @@ where
             self.skip_tok();
             let width = self.lexer.expect_next()?;
             match &width.kind {
-                TokenKind::UnparsedNumber(width) => bits = width.parse().unwrap_or(bits),
+                TokenKind::UnparsedNumber(num) => {
+                    let (digits, radix) = digits_and_radix(num);
+                    match u32::from_str_radix(digits, radix) {
+                        Ok(num @ (8 | 16 | 32 | 64)) => bits = num,
+                        Ok(_) => self.diagnostics.push(Diagnostic::from_token(
+                            width,
+                            ErrorCode::IntError,
+                            "Array elements must be 8, 16, 32 or 64 bits wide",
+                        )),
+                        Err(err) => self.diagnostics.push(Diagnostic::parse_int_error(
+                            width.span(),
+                            width.source(),
+                            err,
+                        )),
+                    }
+                }
                 _ => self.diagnostics.push(Diagnostic::expected(
                     width.span(),
                     width.source(),
-- 
2.43.0


From b21b8452ed6e8eb698b69eefe2eca3b6c8e7852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 41/41] fix: check the names of labels within property values

---
 ginko/src/dts/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 559dc9d..a859957 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -460,14 +460,15 @@ where
     }
 
     fn skip_optional_label(&mut self) {
-        if matches!(
-            self.lexer.peek(),
-            Some(Token {
-                kind: TokenKind::Label(_),
-                ..
-            })
-        ) {
+        if let Some(Token {
+            kind: TokenKind::Label(label),
+            span,
+            ..
+        }) = self.lexer.peek()
+        {
+            let (label, span) = (label.clone(), *span);
             self.skip_tok();
+            self.check_is_label(span, &label);
         }
     }
 
-- 
2.43.0

