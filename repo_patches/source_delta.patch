From 720ee9b5b90d6c04c1f781f80e893b4fd7fe6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 01/80] fix: a lexical error in the first token is returned,
 not a panic

---
 giron/src/parser/parser.rs   | 14 +++++++++++++-
 giron/src/scanner/scanner.rs | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..0c6be23 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -68,6 +68,8 @@ enum SyntaxGoal {
 
 pub struct Parser<I> {
     scanner: Scanner<I>,
+    // The error met while scanning the very first token, if any.
+    first_error: Option<Error>,
     has_line_terminator: bool,
     current: Token,
     ctx: Context,
@@ -83,10 +85,14 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        let (current, first_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (scanner.eof(), Some(error)),
+        };
 
         Parser {
             scanner,
+            first_error,
             ctx: Context {
                 strict: false,
                 in_function: false,
@@ -110,6 +116,9 @@ where
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
         self.goal = SyntaxGoal::Script;
+        if let Some(error) = self.first_error.take() {
+            return Err(error);
+        }
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
         body.extend(self.parse_until_eof(&mut Self::parse_stmt_list_item)?);
@@ -124,6 +133,9 @@ where
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
         self.goal = SyntaxGoal::Module;
+        if let Some(error) = self.first_error.take() {
+            return Err(error);
+        }
         self.start_span();
         self.ctx.strict = true;
         let mut body = self.with_params(
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..946e393 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1008,6 +1008,24 @@ where
         })
     }
 
+    /// An end of input token at the current position.
+    pub fn eof(&self) -> Token {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num: self.line,
+            col: self.col,
+            start: self.start,
+            end: self.current,
+        }
+    }
+
     fn token_simple(&mut self, tokentype: TokenType, value: Value) -> Result<Token> {
         self.token(tokentype, value, None, None, None, None, None, None)
     }
-- 
2.43.0


From 84afdd8a286a972b068480caa4106233255e1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 02/80] fix: an empty source does not underflow the token end

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 946e393..4749c5a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1004,7 +1004,7 @@ where
             line_num: self.line,
             col: self.col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current.saturating_sub(1),
         })
     }
 
-- 
2.43.0


From 7e7da83c742691839744518f526eeca51665203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 03/80] fix: reading at the end of the source does not move the
 position

---
 giron/src/scanner/scanner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 4749c5a..bdde210 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -953,6 +953,9 @@ where
                 self.raw_string.push(cp);
             }
         }
+        if cp.is_none() {
+            return None;
+        }
         self.current += 1;
         self.col += 1;
         match (cp, self.peek()) {
-- 
2.43.0


From 603a9796cf7423aa1beaefa1971514a75432b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 04/80] fix: tokens carry the line and column they begin at

---
 giron/src/scanner/scanner.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index bdde210..26e4bc6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -36,6 +36,8 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    token_line: usize,
+    token_col: usize,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -55,6 +57,8 @@ where
             line: 1,
             col: 1,
             newline: false,
+            token_line: 1,
+            token_col: 1,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -971,7 +975,8 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
+        self.token_line = self.line;
+        self.token_col = self.col;
         self.start = self.current;
     }
 
@@ -1004,8 +1009,8 @@ where
             cooked,
             head,
             tail,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.token_line,
+            col: self.token_col,
             start: self.start,
             end: self.current.saturating_sub(1),
         })
@@ -1022,8 +1027,8 @@ where
             cooked: None,
             head: None,
             tail: None,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.token_line,
+            col: self.token_col,
             start: self.start,
             end: self.current,
         }
-- 
2.43.0


From fe1b57caaa0cc1f575611b9879de21b5ded301ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 05/80] fix: a line break counts for semicolon insertion only
 when it lies between the two tokens

---
 giron/src/parser/parser.rs   | 3 +--
 giron/src/scanner/scanner.rs | 5 +++++
 giron/src/token/token.rs     | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0c6be23..1d994c5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4030,9 +4030,8 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.current.newline_before;
         Ok(token)
     }
 
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 26e4bc6..11f7c97 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -38,6 +38,7 @@ pub struct Scanner<I> {
     pub newline: bool,
     token_line: usize,
     token_col: usize,
+    newline_before: bool,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -59,6 +60,7 @@ where
             newline: false,
             token_line: 1,
             token_col: 1,
+            newline_before: false,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -977,6 +979,7 @@ where
     fn start_new_token(&mut self) {
         self.token_line = self.line;
         self.token_col = self.col;
+        self.newline_before = self.newline;
         self.start = self.current;
     }
 
@@ -1009,6 +1012,7 @@ where
             cooked,
             head,
             tail,
+            newline_before: self.newline_before,
             line_num: self.token_line,
             col: self.token_col,
             start: self.start,
@@ -1027,6 +1031,7 @@ where
             cooked: None,
             head: None,
             tail: None,
+            newline_before: self.newline_before,
             line_num: self.token_line,
             col: self.token_col,
             start: self.start,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..6538fbe 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -25,6 +25,7 @@ pub struct Token {
     pub cooked: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
+    pub newline_before: bool,
     pub line_num: usize,
     pub col: usize,
     pub start: usize,
-- 
2.43.0


From cab54b2875d37c2e6ea0c57da88c1d68e6da9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 06/80] fix: looking one token ahead does not rewind lines,
 columns and open braces for good

---
 giron/src/scanner/scanner.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 11f7c97..91d412d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -73,6 +73,8 @@ where
     pub fn next(&mut self, goal: LexGoal) -> Result<Token> {
         if let Some(_) = self.unscanned {
             let token = mem::replace(&mut self.unscanned, None);
+            // The characters of this token have been read already: move past it again.
+            self.swap_state();
             return Ok(token.unwrap());
         }
 
@@ -1079,17 +1081,21 @@ where
     }
 
     pub fn restore_state(&mut self, token: Token) {
-        let state = mem::replace(&mut self.state, None);
-        match state {
+        self.swap_state();
+        self.unscanned = Some(token);
+    }
+
+    /// Exchange the current position with the saved one.
+    fn swap_state(&mut self) {
+        match &mut self.state {
             Some(state) => {
-                self.start = state.start;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
-                self.unscanned = Some(token);
+                mem::swap(&mut self.start, &mut state.start);
+                mem::swap(&mut self.current, &mut state.current);
+                mem::swap(&mut self.line, &mut state.line);
+                mem::swap(&mut self.col, &mut state.col);
+                mem::swap(&mut self.newline, &mut state.newline);
+                mem::swap(&mut self.raw_string, &mut state.raw_string);
+                mem::swap(&mut self.curly_stack, &mut state.curly_stack);
             }
             None => panic!("Trying to restore an unsaved state."),
         }
-- 
2.43.0


From 50975a23aaffa03dffad8b99e0ece01fdb40e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 07/80] fix: an unterminated block comment is an error

---
 giron/src/scanner/scanner.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 91d412d..689408f 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -79,7 +79,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -99,7 +99,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -113,10 +113,11 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
                 (_, _) => break,
             }
         }
+        Ok(())
     }
 
     fn scan_singleline_comment(&mut self) {
@@ -133,7 +134,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -146,9 +147,10 @@ where
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
+        Ok(())
     }
 
     // *******************************************************************
-- 
2.43.0


From 9d9bef72b4019a1a6f6be187a8ddc546868e947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 08/80] fix: an unterminated template is an error, not a panic

---
 giron/src/scanner/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 689408f..a4d96c4 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -664,7 +664,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
@@ -699,7 +699,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
-- 
2.43.0


From 4cfff40a82173e35c60fe5738fd2392c49e1aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 09/80] fix: a line continuation in a template has no cooked
 value

---
 giron/src/scanner/scanner.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a4d96c4..61c54ab 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -713,7 +713,8 @@ where
         )
     }
 
-    fn scan_template_char(&mut self) -> Result<char> {
+    /// Scans one character, escape or line continuation of a template. The latter has no cooked value.
+    fn scan_template_char(&mut self) -> Result<Option<char>> {
         match self.peek2() {
             (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
                 self.consume();
@@ -721,11 +722,11 @@ where
                     (Some('\r'), Some('\n')) => {
                         self.consume();
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                     (_, _) => {
                         self.consume();
-                        Ok('\0')
+                        Ok(None)
                     }
                 }
             }
@@ -736,32 +737,20 @@ where
             | (Some('\\'), Some('r'))
             | (Some('\\'), Some('t')) => {
                 self.consume();
-                self.consume().map(|cp| cp.unescape()).ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
+                Ok(self.consume().map(|cp| cp.unescape()))
             }
-            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
+            (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq().map(Some),
             // TODO: handle octal escape
             (Some('\\'), Some(_)) => {
                 self.consume();
-                self.consume().ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
+                Ok(self.consume())
             }
             (Some(cp), _) if cp.is_line_terminator() => {
                 self.consume();
-                Ok('\n')
+                Ok(Some('\n'))
             }
-            (Some(_), _) => self.consume().ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::UnexpectedEOS,
-            }),
+            (Some(_), _) => Ok(self.consume()),
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }
     }
@@ -935,14 +924,14 @@ where
     pub fn scan2_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
     where
         F: Fn((Option<char>, Option<char>)) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
+        G: FnMut(&mut Self) -> Result<Option<char>>,
     {
         let mut res = String::new();
         loop {
             match self.peek2() {
                 (Some(cp1), Some(cp2)) if pred((Some(cp1), Some(cp2))) => return Ok(res),
                 (Some(cp1), None) if pred((Some(cp1), None)) => return Ok(res),
-                (Some(_), _) => res.push(read(self)?),
+                (Some(_), _) => res.extend(read(self)?),
                 (None, _) => return Ok(res),
             }
         }
-- 
2.43.0


From 6e6a71fe9c7eec0dc6847e270a3ca9ce9e2161bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 10/80] fix: CR and CRLF in a template become LF, in the cooked
 and in the raw text

---
 giron/src/scanner/scanner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 61c54ab..bc80d64 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -653,7 +653,7 @@ where
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
             &mut |this| this.scan_template_char(),
         )?;
-        value.push_str(&self.stop_recording());
+        value.push_str(&self.stop_recording().replace("\r\n", "\n").replace('\r', "\n"));
         match self.peek2() {
             (Some('$'), Some('{')) => {
                 self.consume();
@@ -688,7 +688,7 @@ where
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
             &mut |this| this.scan_template_char(),
         )?;
-        value.push_str(&self.stop_recording());
+        value.push_str(&self.stop_recording().replace("\r\n", "\n").replace('\r', "\n"));
         match self.peek2() {
             (Some('$'), Some('{')) => {
                 self.consume();
@@ -746,7 +746,12 @@ where
                 self.consume();
                 Ok(self.consume())
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\r'), Some('\n')) => {
+                self.consume();
+                self.consume();
+                Ok(Some('\n'))
+            }
+            (Some('\r'), _) => {
                 self.consume();
                 Ok(Some('\n'))
             }
-- 
2.43.0


From 7a3c37a6b74ea2b8553688d1e674901dbf7066a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 11/80] fix: digit escapes in templates: NUL for \0, octal
 escapes are errors

---
 giron/src/scanner/scanner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index bc80d64..151261d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -741,7 +741,18 @@ where
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
             (Some('\\'), Some('u')) => self.scan_unicode_esc_seq().map(Some),
-            // TODO: handle octal escape
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                self.consume();
+                self.consume();
+                // Octal escapes are not allowed, "\0" is not one unless another digit follows.
+                match self.peek() {
+                    Some(next) if next.is_decimal_digit() => {
+                        self.error(ErrorType::InvalidOrUnexpectedToken)
+                    }
+                    _ if cp != '0' => self.error(ErrorType::InvalidOrUnexpectedToken),
+                    _ => Ok(Some('\0')),
+                }
+            }
             (Some('\\'), Some(_)) => {
                 self.consume();
                 Ok(self.consume())
-- 
2.43.0


From e1808109037293de19afb746262e6ac64d826753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 12/80] fix: a line continuation may end a string literal

---
 giron/src/scanner/scanner.rs | 96 +++++++++++-------------------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 151261d..bef69f1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -426,11 +426,12 @@ where
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
         }
 
-        let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
-            let (res, is_octal) = this.scan_string_literal_cp();
+        let mut value = String::new();
+        while self.peek().is_some() && !self.matches(quote) {
+            let (res, is_octal) = self.scan_string_literal_cp();
             octal = octal || is_octal;
-            res
-        })?;
+            value.extend(res?);
+        }
 
         self.expect(quote)?;
         self.token(
@@ -445,71 +446,32 @@ where
         )
     }
 
-    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
-        loop {
-            match self.peek2() {
-                (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
-                    self.consume();
-                    let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    });
-                    return (val, false);
-                }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
-                }
-                (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
-                (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                    return (self.scan_octal_esc_seq(), true)
-                }
-                (Some('\\'), Some(_)) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (Some(cp), _) if cp.is_line_terminator() => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-                (Some(_), _) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (_, _) => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
+    /// Scans one character, escape or line continuation. The latter stands for no character.
+    fn scan_string_literal_cp(&mut self) -> (Result<Option<char>>, bool) {
+        match self.peek2() {
+            (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
+                self.consume();
+                (Ok(self.consume().map(|esc| esc.unescape())), false)
+            }
+            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+                self.consume(); // consume "\"
+                if let (Some('\r'), Some('\n')) = self.peek2() {
+                    self.consume(); // consume "\r" if <CR><LF>
                 }
+                self.consume(); // consume line terminator
+                (Ok(None), false)
+            }
+            (Some('\\'), Some('x')) => (self.scan_hex_esc_seq().map(Some), false),
+            (Some('\\'), Some('u')) => (self.scan_unicode_esc_seq().map(Some), false),
+            (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
+                (self.scan_octal_esc_seq().map(Some), true)
+            }
+            (Some('\\'), Some(_)) => (Ok(self.consume()), false),
+            (Some(cp), _) if cp.is_line_terminator() => {
+                (self.error(ErrorType::InvalidOrUnexpectedToken), false)
             }
+            (Some(_), _) => (Ok(self.consume()), false),
+            (_, _) => (self.error(ErrorType::InvalidOrUnexpectedToken), false),
         }
     }
 
-- 
2.43.0


From bbd80c12f14bb7a7fdbb57578bdf89dd82dbf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 13/80] fix: the backslash of a non-special escape is not part
 of a string's value

---
 giron/src/scanner/scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index bef69f1..e172b4f 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -466,7 +466,10 @@ where
             (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
                 (self.scan_octal_esc_seq().map(Some), true)
             }
-            (Some('\\'), Some(_)) => (Ok(self.consume()), false),
+            (Some('\\'), Some(_)) => {
+                self.consume(); // the backslash of a non-special escape is not part of the value
+                (Ok(self.consume()), false)
+            }
             (Some(cp), _) if cp.is_line_terminator() => {
                 (self.error(ErrorType::InvalidOrUnexpectedToken), false)
             }
-- 
2.43.0


From bece51d810f99bd389b80156e72f27cdeecec119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 14/80] fix: string literals may contain LINE SEPARATOR and
 PARAGRAPH SEPARATOR

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e172b4f..039cabd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -470,7 +470,7 @@ where
                 self.consume(); // the backslash of a non-special escape is not part of the value
                 (Ok(self.consume()), false)
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\n'), _) | (Some('\r'), _) => {
                 (self.error(ErrorType::InvalidOrUnexpectedToken), false)
             }
             (Some(_), _) => (Ok(self.consume()), false),
-- 
2.43.0


From 5dacd92a83cdaa6bb615cb90ce1d4982cae9c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 15/80] fix: an octal escape has at most three digits

---
 giron/src/scanner/scanner.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 039cabd..44038a6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -481,22 +481,17 @@ where
     fn scan_octal_esc_seq(&mut self) -> Result<char> {
         self.consume();
 
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
-
-        let mv = i64::from_str_radix(&value, 8)
-            .map(|i| i as u32)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })?;
-
+        // LegacyOctalEscapeSequence: up to three digits, the first of three being at most 3.
+        let mut mv = 0;
+        for _ in 0..3 {
+            match self.peek() {
+                Some(cp) if cp.is_octal_digit() && mv < 32 => {
+                    self.consume();
+                    mv = mv * 8 + cp.to_digit(8).unwrap();
+                }
+                _ => break,
+            }
+        }
         char::from_u32(mv).ok_or(Error {
             line: self.line,
             col: self.col,
-- 
2.43.0


From 0455fbe30da0d3b50a76a08a2799526a8e72ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 16/80] fix: code point escapes: too many digits do not
 overflow, none at all is an error

---
 giron/src/scanner/scanner.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 44038a6..60e7b5d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -210,16 +210,21 @@ where
         if self.matches('{') {
             self.consume();
             // reduce scanned chars to u32
-            let value = self
-                .scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?
-                .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+            let digits = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+                this.consume().ok_or(Error {
+                    line: this.line,
+                    col: this.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                })
+            })?;
+            if digits.is_empty() {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
+            let value = digits.chars().fold(0u32, |value, cp| {
+                value
+                    .saturating_mul(16)
+                    .saturating_add(cp.to_digit(16).unwrap())
+            });
             // consume "}"
             self.expect('}')?;
             char::from_u32(value).ok_or(Error {
-- 
2.43.0


From 80584e49aa518cb165e0a7bb08a1ef140b63c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 17/80] fix: a surrogate pair written as two escapes is one
 character

---
 giron/src/scanner/scanner.rs | 43 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 60e7b5d..b624652 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -204,6 +204,33 @@ where
     /// "\" "u" HexDigit HexDigit HexDigit HexDigit
     /// "\" "u" "{" HexDigits "}"
     fn scan_unicode_esc_seq(&mut self) -> Result<char> {
+        let value = self.scan_unicode_esc_value()?;
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    /// Scans a Unicode escape of a string or template, where the two halves of a surrogate pair
+    /// are written as two escapes.
+    fn scan_utf16_esc_seq(&mut self) -> Result<char> {
+        let mut value = self.scan_unicode_esc_value()?;
+        if value >= 0xD800 && value <= 0xDBFF && self.peek2() == (Some('\\'), Some('u')) {
+            let low = self.scan_unicode_esc_value()?;
+            if low < 0xDC00 || low > 0xDFFF {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
+            value = 0x10000 + ((value - 0xD800) << 10) + (low - 0xDC00);
+        }
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    fn scan_unicode_esc_value(&mut self) -> Result<u32> {
         self.expect('\\')?;
         self.expect('u')?;
 
@@ -227,11 +254,7 @@ where
             });
             // consume "}"
             self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidUnicodeEscapeSequence,
-            })
+            Ok(value)
         } else {
             let mut value = 0;
             for _ in 0..4 {
@@ -242,11 +265,7 @@ where
                     _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
                 }
             }
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+            Ok(value)
         }
     }
 
@@ -467,7 +486,7 @@ where
                 (Ok(None), false)
             }
             (Some('\\'), Some('x')) => (self.scan_hex_esc_seq().map(Some), false),
-            (Some('\\'), Some('u')) => (self.scan_unicode_esc_seq().map(Some), false),
+            (Some('\\'), Some('u')) => (self.scan_utf16_esc_seq().map(Some), false),
             (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
                 (self.scan_octal_esc_seq().map(Some), true)
             }
@@ -705,7 +724,7 @@ where
                 Ok(self.consume().map(|cp| cp.unescape()))
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(Some),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq().map(Some),
+            (Some('\\'), Some('u')) => self.scan_utf16_esc_seq().map(Some),
             (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
                 self.consume();
                 self.consume();
-- 
2.43.0


From 6352a276a04031f6dfe6f4040b3faefe9960e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 18/80] fix: an identifier may begin with a Unicode escape

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index b624652..b821a92 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -84,6 +84,7 @@ where
 
         match self.peek2() {
             (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some('\\'), _) => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
-- 
2.43.0


From 913922d89a1cd80fc7971d575ad338ae75c2e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 19/80] fix: Unicode escapes inside identifiers are read and
 must spell identifier characters

---
 giron/src/scanner/scanner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index b821a92..99f5a3e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -164,11 +164,14 @@ where
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
+                if this.matches('\\') {
+                    let cp = this.scan_unicode_esc_seq()?;
+                    if cp == '\\' || !cp.is_identifier_continue() {
+                        return this.error(ErrorType::InvalidOrUnexpectedToken);
+                    }
                     Ok(cp)
+                } else {
+                    Ok(this.consume().unwrap())
                 }
             },
         )?;
-- 
2.43.0


From 2e836aca8e4fd9014e2b19995423d14cba6ba551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 20/80] fix: ZWNJ and ZWJ may continue an identifier

---
 giron/src/codepoint/codepoint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..8f89b91 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -43,6 +43,8 @@ impl CodePoint for char {
     fn is_identifier_continue(self) -> bool {
         match self {
             '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            // <ZWNJ> | <ZWJ>
+            '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
-- 
2.43.0


From 294031d7c7cd68fc4bcfb43a7ff60b3b600d2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 21/80] fix: a reserved word spelled with escapes is no keyword
 and no variable name

---
 giron/src/parser/parser.rs   | 19 ++++++++++++-------
 giron/src/scanner/scanner.rs |  9 ++++++++-
 giron/src/token/token.rs     |  1 +
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1d994c5..de2adee 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2830,6 +2830,7 @@ where
                 let value = match this.current.tokentype {
                     TokenType::Identifier
                     | TokenType::Keyword
+                    | TokenType::EscapedKeyword
                     | TokenType::StringLiteral
                     | TokenType::NumericLiteral => {
                         Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
@@ -3435,7 +3436,7 @@ where
             }
 
             let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
+                TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
                     this.start_span();
                     let name = this.parse_id_name(LexGoal::Div)?;
                     Ok(PropertyKey::Identifier(Identifier {
@@ -3520,7 +3521,7 @@ where
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
@@ -3832,7 +3833,8 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword | TokenType::EscapedKeyword
+                if self.current.matches_str("yield") => {
                 if self.params.has_yield {
                     self.error_current(ErrorType::YieldInParameter)
                 } else {
@@ -3843,7 +3845,8 @@ where
                     })
                 }
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword | TokenType::EscapedKeyword
+                if self.current.matches_str("await") => {
                 if self.params.has_await {
                     self.error_current(ErrorType::AwaitExpressionFormalParameter)
                 } else {
@@ -3871,13 +3874,15 @@ where
                 name: self.advance(LexGoal::Div)?.to_string(),
                 span: self.end_span(),
             })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword | TokenType::EscapedKeyword
+                if self.current.matches_str("yield") => {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
                 }))
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword | TokenType::EscapedKeyword
+                if self.current.matches_str("await") => {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
@@ -3890,7 +3895,7 @@ where
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
                 Ok(self.advance(goal)?.value.string().unwrap())
             }
             _ => self.unexpected_current(),
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 99f5a3e..9f6e61b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -160,11 +160,13 @@ where
 
     pub fn scan_identifier(&mut self) -> Result<Token> {
         let mut value = String::new();
+        let mut escaped = self.matches('\\');
         value.push(self.scan_identifier_start()?);
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
                 if this.matches('\\') {
+                    escaped = true;
                     let cp = this.scan_unicode_esc_seq()?;
                     if cp == '\\' || !cp.is_identifier_continue() {
                         return this.error(ErrorType::InvalidOrUnexpectedToken);
@@ -178,10 +180,15 @@ where
         value.push_str(&part);
 
         match value.as_str() {
+            "null" | "true" | "false" if escaped => {
+                self.token_simple(TokenType::EscapedKeyword, Value::Str(value))
+            }
             "null" => self.token_simple(TokenType::NullLiteral, Value::Null),
             "true" | "false" => self.token_simple(TokenType::BooleanLiteral, Value::Str(value)),
             val => {
-                if self.is_keyword(val) {
+                if self.is_keyword(val) && escaped {
+                    self.token_simple(TokenType::EscapedKeyword, Value::Str(value))
+                } else if self.is_keyword(val) {
                     self.token_simple(TokenType::Keyword, Value::Str(value))
                 } else {
                     self.token_simple(TokenType::Identifier, Value::Str(value))
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 6538fbe..52f2f22 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -6,6 +6,7 @@ pub enum TokenType {
     BooleanLiteral,
     Identifier,
     Keyword,
+    EscapedKeyword, // a reserved word spelled with escapes: only a property name
     NullLiteral,
     NumericLiteral,
     StringLiteral,
-- 
2.43.0


From 98f948125c564379bac3d2a0482d3fdf48148a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 22/80] fix: numbers with a leading zero or a radix have their
 exact value, at any length

---
 giron/src/scanner/scanner.rs | 52 ++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9f6e61b..d9657ea 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -47,6 +47,23 @@ pub struct Scanner<I> {
     state: Option<ScannerState>,
 }
 
+/// The number nearest to the value of digits in a radix that is a power of two.
+fn radix_value(digits: &str, radix: u32) -> f64 {
+    let bits = radix.trailing_zeros();
+    let mut mantissa: u64 = 0;
+    let mut exponent = 0;
+    for digit in digits.chars().filter_map(|cp| cp.to_digit(radix)) {
+        if mantissa >> (64 - bits) == 0 {
+            mantissa = (mantissa << bits) | u64::from(digit);
+        } else {
+            // Digits that do not fit count for the size, and for rounding when they are not zero.
+            exponent += bits as i32;
+            mantissa |= u64::from(digit != 0);
+        }
+    }
+    mantissa as f64 * 2f64.powi(exponent)
+}
+
 impl<I> Scanner<I>
 where
     I: Iterator<Item = char>,
@@ -328,8 +345,8 @@ where
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
-            (Some('0'), Some(cp)) if cp != '.' => {
-                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+            (Some('0'), Some(cp)) if cp.is_decimal_digit() => {
+                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
                         col: this.col,
@@ -337,17 +354,18 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
+                if val.chars().all(|cp| cp.is_octal_digit()) {
+                    Ok(radix_value(&val, 8))
+                } else if self.matches('.') {
+                    self.scan_fractional_part(val)
+                } else {
+                    val.push_str(&self.scan_exponent()?);
+                    val.parse().map_err(|_| Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::InvalidOrUnexpectedToken,
                     })
+                }
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
@@ -428,25 +446,19 @@ where
     }
 
     fn scan_radix_literal(&mut self, radix: u32) -> Result<f64> {
-        // NOTE: This function consumes as many hex digits as possible.
-        // Can this lead to Err for valid ECMAScript?
         self.expect('0')?;
         self.consume(); // b | B | o | O | x | X
-        let value = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+        let value = self.scan_until_with(|cp| !cp.is_digit(radix), &mut |this| {
             this.consume().ok_or(Error {
                 line: this.line,
                 col: this.col,
                 errortype: ErrorType::InvalidOrUnexpectedToken,
             })
         })?;
-
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        if value.is_empty() {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(radix_value(&value, radix))
     }
 
     // *******************************************************************
-- 
2.43.0


From b2e43a657a4648f8ddc2cd5e6d7526b668a337fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 23/80] fix: a number may not be followed directly by a name or
 digit

---
 giron/src/scanner/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d9657ea..ae32b7a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -395,7 +395,13 @@ where
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
 
-        self.token_simple(TokenType::NumericLiteral, Value::Num(value))
+        // The character after a number may not be part of a name or number.
+        match self.peek() {
+            Some(cp) if cp.is_identifier_start() || cp.is_decimal_digit() || cp == '\\' => {
+                self.error(ErrorType::InvalidOrUnexpectedToken)
+            }
+            _ => self.token_simple(TokenType::NumericLiteral, Value::Num(value)),
+        }
     }
 
     fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
-- 
2.43.0


From 293b2d228e0f2b37b342f47c36862adcb871e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 24/80] fix: an error about the current token does not read
 past it

---
 giron/src/parser/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index de2adee..a75ff6a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -559,7 +559,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -636,7 +636,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -723,7 +723,7 @@ where
             _ => match &id {
                 Binding::BindingIdentifier { .. } => None,
                 _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     return self.error(token, ErrorType::MissingInitializer);
                 }
             },
@@ -997,7 +997,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_in_stmt(Box::from(expr))
@@ -1011,7 +1011,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_of_stmt(Box::from(expr))
@@ -4136,7 +4136,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4151,7 +4151,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
-- 
2.43.0


From fb21365570a90f9c3cf64447c8ff25962cdd543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 25/80] fix: the raw text of a literal is its source text, and
 literal keys are read once

---
 giron/src/parser/parser.rs   | 26 ++++++++++++--------------
 giron/src/scanner/scanner.rs |  4 ++++
 giron/src/token/token.rs     |  1 +
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a75ff6a..b2ec68d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -338,11 +338,10 @@ where
         match self.current.tokentype {
             TokenType::StringLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::RegExp)?.value;
-                let raw = String::from(&value);
+                let token = self.advance(LexGoal::RegExp)?;
                 Ok(Literal {
-                    value,
-                    raw,
+                    value: token.value,
+                    raw: token.raw,
                     span: self.end_span(),
                 })
             }
@@ -2536,11 +2535,10 @@ where
             | TokenType::BooleanLiteral
             | TokenType::NullLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::Div)?.value;
-                let raw = String::from(&value);
+                let token = self.advance(LexGoal::Div)?;
                 Ok(Node::Literal {
-                    value,
-                    raw,
+                    value: token.value,
+                    raw: token.raw,
                     assign_target_type: "invalid",
                     span: self.end_span(),
                 })
@@ -3446,11 +3444,10 @@ where
                 }
                 TokenType::StringLiteral | TokenType::NumericLiteral => {
                     this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
+                    let token = this.advance(LexGoal::RegExp)?;
                     Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
-                        value,
-                        raw: String::from(&this.current.value),
+                        value: token.value,
+                        raw: token.raw,
                         span: this.end_span(),
                     }))
                 }
@@ -3533,10 +3530,11 @@ where
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let token = self.advance(LexGoal::RegExp)?;
                 Ok((
                     PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                        value: token.value,
+                        raw: token.raw,
                         span: self.end_span(),
                     }),
                     false,
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index ae32b7a..1e6d4de 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1003,10 +1003,12 @@ where
         self.token_col = self.col;
         self.newline_before = self.newline;
         self.start = self.current;
+        self.start_recording();
     }
 
     fn start_recording(&mut self) {
         self.record_raw = true;
+        self.raw_string.clear();
     }
 
     fn stop_recording(&mut self) -> String {
@@ -1028,6 +1030,7 @@ where
         Ok(Token {
             tokentype,
             value,
+            raw: self.stop_recording(),
             pattern,
             flags,
             octal,
@@ -1047,6 +1050,7 @@ where
         Token {
             tokentype: TokenType::Eof,
             value: Value::Null,
+            raw: String::new(),
             pattern: None,
             flags: None,
             octal: None,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 52f2f22..953b991 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -20,6 +20,7 @@ pub enum TokenType {
 pub struct Token {
     pub tokentype: TokenType,
     pub value: Value,
+    pub raw: String, // the source text of the token
     pub pattern: Option<String>,
     pub flags: Option<Vec<char>>,
     pub octal: Option<bool>,
-- 
2.43.0


From 3b6321e8084387e5c915871405e69851e7d532ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 26/80] fix: a regular expression ends at its line, and an
 escaped ] does not end its class

---
 giron/src/scanner/scanner.rs | 52 ++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1e6d4de..2a67640 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -596,39 +596,22 @@ where
         if let Some('*') = self.peek() {
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
-        let mut value = String::from("");
+        self.scan_regexp_chars(String::from(""))
+    }
+
+    /// Scans the characters of a regular expression up to and with the closing slash.
+    fn scan_regexp_chars(&mut self, mut value: String) -> Result<String> {
+        let mut in_class = false;
         loop {
             match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
-                }
                 Some('\\') => {
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
+                    value.push(self.scan_regexp_char()?);
+                    value.push(self.scan_regexp_char()?);
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
-                    let res = self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?;
-                    value.push(res);
+                Some('/') if !in_class => break,
+                Some(cp) => {
+                    in_class = cp == '[' || (in_class && cp != ']');
+                    value.push(self.scan_regexp_char()?);
                 }
                 None => break,
             }
@@ -637,6 +620,17 @@ where
         Ok(value)
     }
 
+    /// Any character of a regular expression but a line terminator.
+    fn scan_regexp_char(&mut self) -> Result<char> {
+        match self.peek() {
+            Some(cp) if !cp.is_line_terminator() => {
+                self.consume();
+                Ok(cp)
+            }
+            _ => self.error(ErrorType::InvalidOrUnexpectedToken),
+        }
+    }
+
     fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
         self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
-- 
2.43.0


From eec494da4b29376d04aa486ab937ba6ba5dae1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 27/80] fix: a slash where an operand is expected always begins
 a regular expression

---
 giron/src/parser/parser.rs   |  4 ++++
 giron/src/scanner/scanner.rs | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b2ec68d..81c8d21 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2513,6 +2513,10 @@ where
         //     RegularExpressionLiteral
         //     TemplateLiteral[?Yield, ?Await, ~Tagged]
         //     CoverParenthesizedExpressionAndArrowParameterList[?Yield, ?Await]
+        if self.current.matches_punc("/") || self.current.matches_punc("/=") {
+            // An operand is expected here: this slash begins a regular expression.
+            self.current = self.scanner.rescan_regexp_literal(&self.current)?;
+        }
         match &self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("function") => {
                 self.parse_function_expr(false)
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2a67640..ae2a986 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -591,6 +591,31 @@ where
         )
     }
 
+    /// Scans a regular expression again that was taken for the punctuator "/" or "/=".
+    pub fn rescan_regexp_literal(&mut self, punctuator: &Token) -> Result<Token> {
+        self.start_recording();
+        self.raw_string.push_str(&punctuator.raw);
+        let pattern = self.scan_regexp_chars(String::from(&punctuator.raw[1..]))?;
+        let flags = self.scan_regexp_flags()?;
+        let token = self.token(
+            TokenType::RegularExpression,
+            Value::Str(String::from("")),
+            Some(pattern),
+            Some(flags),
+            None,
+            None,
+            None,
+            None,
+        )?;
+        Ok(Token {
+            newline_before: punctuator.newline_before,
+            line_num: punctuator.line_num,
+            col: punctuator.col,
+            start: punctuator.start,
+            ..token
+        })
+    }
+
     fn scan_regexp_body(&mut self) -> Result<String> {
         self.expect('/')?;
         if let Some('*') = self.peek() {
-- 
2.43.0


From 933ae2e1938b843885df2a4648777b6e8e35a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 28/80] fix: a slash after a complete operand is a division

---
 giron/src/parser/parser.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 81c8d21..023e85a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -316,7 +316,7 @@ where
                 }
             }
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(specifiers)
     }
 
@@ -511,7 +511,7 @@ where
                 }
             }
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(specifiers)
     }
 
@@ -1420,7 +1420,7 @@ where
                     TokenType::Punctuator if self.current.matches_punc("(") => {
                         self.advance(LexGoal::RegExp)?;
                         let binding = self.parse_binding_id_or_pat()?;
-                        self.consume(")", LexGoal::RegExp)?;
+                        self.consume(")", LexGoal::Div)?;
                         Some(binding)
                     }
                     _ => None,
@@ -1585,7 +1585,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1633,7 +1633,7 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ClassDeclaration {
             id,
             super_class,
@@ -1671,7 +1671,7 @@ where
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
                             this.consume("(", LexGoal::RegExp)?;
-                            this.consume(")", LexGoal::RegExp)?;
+                            this.consume(")", LexGoal::Div)?;
                             let body = Box::from(this.with_params(
                                 Params {
                                     has_yield: false,
@@ -2219,7 +2219,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
@@ -2840,7 +2840,7 @@ where
                     TokenType::Punctuator if this.current.matches_punc("[") => {
                         this.consume("[", LexGoal::RegExp)?;
                         let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::RegExp)?;
+                        this.consume("]", LexGoal::Div)?;
                         Ok(ValueOrExpr::Expr(expr))
                     }
                     _ => this.unexpected_current(),
@@ -2937,7 +2937,7 @@ where
                 Ok(property)
             }
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Binding::ObjectPattern(ObjectPattern {
             properties,
             span: self.end_span(),
@@ -3060,7 +3060,7 @@ where
                     Ok(Some(element))
                 }
             })?;
-        self.consume("]", LexGoal::RegExp)?;
+        self.consume("]", LexGoal::Div)?;
         Ok(Binding::ArrayPattern(ArrayPattern {
             elements,
             span: self.end_span(),
@@ -3277,7 +3277,7 @@ where
                     Ok(param)
                 }
             })?;
-        self.consume(")", LexGoal::RegExp)?;
+        self.consume(")", LexGoal::Div)?;
         Ok(parameters)
     }
 
@@ -3511,7 +3511,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
@@ -3555,7 +3555,7 @@ where
         log!("parse_computed_property_name");
         self.consume("[", LexGoal::RegExp)?;
         let name = PropertyKey::Expression(self.with_in(true, &mut Self::parse_assignment_expr)?);
-        self.consume("]", LexGoal::RegExp)?;
+        self.consume("]", LexGoal::Div)?;
         Ok(name)
     }
 
@@ -3571,7 +3571,7 @@ where
         match kind {
             "get" => {
                 self.consume("(", LexGoal::RegExp)?;
-                self.consume(")", LexGoal::RegExp)?;
+                self.consume(")", LexGoal::Div)?;
                 let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
                     id: None,
                     params: vec![],
-- 
2.43.0


From 54b814f0681127d20f1c21455c4430b1601be618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 29/80] fix: an operator may be the last character, and >>= is
 one

---
 giron/src/scanner/scanner.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index ae2a986..0e4f985 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -838,32 +838,32 @@ where
                     (_, _) => self.punc0("?"),
                 }
             }
-            (Some('+'), Some(cp)) => match cp {
-                '=' => self.punc2("+="),
-                '+' => self.punc2("++"),
+            (Some('+'), cp) => match cp {
+                Some('=') => self.punc2("+="),
+                Some('+') => self.punc2("++"),
                 _ => self.punc1("+"),
             },
-            (Some('-'), Some(cp)) => match cp {
-                '=' => self.punc2("-="),
-                '-' => self.punc2("--"),
+            (Some('-'), cp) => match cp {
+                Some('=') => self.punc2("-="),
+                Some('-') => self.punc2("--"),
                 _ => self.punc1("-"),
             },
-            (Some('&'), Some(cp)) => match cp {
-                '=' => self.punc2("&="),
-                '&' => self.punc2("&&"),
+            (Some('&'), cp) => match cp {
+                Some('=') => self.punc2("&="),
+                Some('&') => self.punc2("&&"),
                 _ => self.punc1("&"),
             },
-            (Some('|'), Some(cp)) => match cp {
-                '=' => self.punc2("|="),
-                '|' => self.punc2("||"),
+            (Some('|'), cp) => match cp {
+                Some('=') => self.punc2("|="),
+                Some('|') => self.punc2("||"),
                 _ => self.punc1("|"),
             },
-            (Some('%'), Some(cp)) => match cp {
-                '=' => self.punc2("%="),
+            (Some('%'), cp) => match cp {
+                Some('=') => self.punc2("%="),
                 _ => self.punc1("%"),
             },
-            (Some('^'), Some(cp)) => match cp {
-                '=' => self.punc2("^="),
+            (Some('^'), cp) => match cp {
+                Some('=') => self.punc2("^="),
                 _ => self.punc1("^"),
             },
             (Some('.'), _) => {
@@ -919,6 +919,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From 1ac0a3e6e800d0e9cb28c99fd8f4078acf32df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 30/80] fix: nodes are serialised under their ESTree type and
 field names

---
 giron/src/estree/estree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..636be34 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -143,6 +143,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -224,6 +225,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -302,6 +304,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -349,10 +352,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -472,6 +477,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -484,6 +490,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -532,7 +539,8 @@ pub enum Node {
         span: Span,
     },
     ClassExpression {
-        id: Option<Box<Node>>,          // Identifier | null
+        id: Option<Box<Node>>, // Identifier | null
+        #[serde(rename = "superClass")]
         super_class: Option<Box<Node>>, // Identifier | null
         body: ClassBody,
         #[serde(skip)]
@@ -540,6 +548,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -605,6 +614,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
         value: String,
         raw: String,
@@ -621,6 +631,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -709,6 +720,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
-- 
2.43.0


From 7b265de0db256b9e31d90bb699a2095f728a0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 31/80] fix: a regular expression literal does not hold the
 text of the next token, and its flags are a string

---
 giron/src/estree/estree.rs | 4 ++--
 giron/src/parser/parser.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 636be34..8a2f82e 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -61,7 +61,7 @@ pub struct ClassBody {
 #[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
@@ -616,7 +616,7 @@ pub enum Node {
     },
     #[serde(rename = "Literal")]
     RegexLiteral {
-        value: String,
+        value: Value,
         raw: String,
         regex: Regex,
         #[serde(skip)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 023e85a..d61fcc1 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2553,11 +2553,11 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: Value::Null,
+                    raw: token.raw,
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
-                        flags: token.flags.unwrap(),
+                        flags: token.flags.unwrap().into_iter().collect(),
                     },
                     assign_target_type: "invalid",
                     span: self.end_span(),
-- 
2.43.0


From 0b49a6ea948c3f7b0a238635c12e14a9b1a0007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 32/80] fix: the value of true and false is a boolean

---
 giron/src/parser/parser.rs | 6 +++++-
 giron/src/token/value.rs   | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d61fcc1..e469dee 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2540,8 +2540,12 @@ where
             | TokenType::NullLiteral => {
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
+                let value = match token.tokentype {
+                    TokenType::BooleanLiteral => Value::Bool(token.value == Value::Str("true".into())),
+                    _ => token.value,
+                };
                 Ok(Node::Literal {
-                    value: token.value,
+                    value,
                     raw: token.raw,
                     assign_target_type: "invalid",
                     span: self.end_span(),
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..8415e82 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -7,6 +7,7 @@ pub enum Value {
     Str(String),
     Num(f64),
     Punc(Punctuator),
+    Bool(bool),
     Null,
 }
 
@@ -16,6 +17,7 @@ impl From<&Value> for String {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
             Value::Punc(p) => p.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Null => String::from("null"),
         }
     }
-- 
2.43.0


From 75ab16127c5a813acd55b78c17916dcbd9cf81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 33/80] fix: && and || are logical expressions

---
 giron/src/parser/parser.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e469dee..e11fc73 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2113,12 +2113,21 @@ where
             {
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.end_span(),
+            lhs = if op.matches_punc("&&") || op.matches_punc("||") {
+                Node::LogicalExpression {
+                    operator: op.value.punc().unwrap().to_str(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    span: self.end_span(),
+                }
+            } else {
+                Node::BinaryExpression {
+                    operator: op.to_string(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    assign_target_type: "invalid",
+                    span: self.end_span(),
+                }
             };
             self.start_span();
         }
-- 
2.43.0


From 41b5ff6a9ff197bb5c821e0831c62f4ba889018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 34/80] fix: await is an await expression

---
 giron/src/parser/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e11fc73..4317cd4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2182,6 +2182,13 @@ where
                 if self.current.is_unary_op(self.params.has_await) =>
             {
                 self.start_span();
+                if self.current.matches_str("await") {
+                    self.advance(LexGoal::RegExp)?;
+                    return Ok(Node::AwaitExpression {
+                        argument: Box::new(self.parse_unary_expr()?),
+                        span: self.end_span(),
+                    });
+                }
                 Ok(Node::UnaryExpression {
                     operator: self.advance(LexGoal::RegExp)?.to_string(),
                     argument: Box::new(self.parse_unary_expr()?),
-- 
2.43.0


From 455816637c7b8c226dd3f4460554a3b9a0ccbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 35/80] fix: for-of statements have an await flag

---
 giron/src/estree/estree.rs | 1 +
 giron/src/parser/parser.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 8a2f82e..c9ea112 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -786,6 +786,7 @@ pub enum Node {
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         body: Box<Node>,  // Statement
+        r#await: bool,
         #[serde(skip)]
         span: Span,
     },
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4317cd4..264a00f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1110,6 +1110,7 @@ where
             left,
             right,
             body,
+            r#await: false,
             span: self.end_span(),
         })
     }
-- 
2.43.0


From bede0b30cf48bc910a0d356b1d8ed4ec1ff5a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 36/80] fix: % binds as tightly as * and /

---
 giron/src/parser/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..5f4829b 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -162,7 +162,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
-- 
2.43.0


From 8039898d195cc2eaebfb6e2818478fcd68dbe5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 37/80] fix: a default import is an ImportDefaultSpecifier

---
 giron/src/parser/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 264a00f..2610295 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -226,9 +226,8 @@ where
                         &mut Self::parse_binding_id,
                     )?
                     .to_id()?;
-                let imported = local.clone();
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
-- 
2.43.0


From 3cd70dfce93cd4f7d4fba2fd06e6250a390fc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 38/80] fix: import "x" panicked

---
 giron/src/parser/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2610295..dd20756 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -246,7 +246,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 0e1beb65eedf4ee5cde768052c30c2157aaba48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 39/80] fix: export specifiers had local and exported names
 swapped

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dd20756..0acfb74 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -489,13 +489,13 @@ where
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
-- 
2.43.0


From de5622be9ff3a6290f13aa60d1c602dbe1528637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 40/80] fix: export {..} from and its semicolon

---
 giron/src/parser/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0acfb74..fb9c176 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -449,7 +449,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 let specifiers = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -460,12 +460,15 @@ where
                             span: self.end_span(),
                         })
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
+                    _ => {
+                        self.consume_semicolon(LexGoal::RegExp)?;
+                        Ok(Node::ExportNamedDeclaration {
+                            declaration: None,
+                            specifiers,
+                            source: None,
+                            span: self.end_span(),
+                        })
+                    }
                 }
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
-- 
2.43.0


From ae5ab1bf1bcbaada039825f9f7c6a5674d6f3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 41/80] fix: strict mode and module rules for identifiers

---
 giron/src/errors/errors.rs |  2 +
 giron/src/parser/parser.rs | 96 ++++++++++++++++++--------------------
 giron/src/parser/syntax.rs |  8 +++-
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 43ae015..507828e 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -123,6 +123,7 @@ pub enum ErrorType {
     InvalidUnicodeEscapeSequence,
     InvalidRestBindingPattern,
     UnexpectedStrictReserved,
+    StrictEvalArguments,
 }
 
 impl fmt::Display for Error {
@@ -162,6 +163,7 @@ impl fmt::Display for Error {
             ErrorType::InvalidUnicodeEscapeSequence => write!(f, "Invalid Unicode escape sequence"),
             ErrorType::InvalidRestBindingPattern => write!(f, "`...` must be followed by an identifier in declaration contexts"),
             ErrorType::UnexpectedStrictReserved => write!(f, "Unexpected strict mode reserved word"),
+            ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
         }
     }
 }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fb9c176..912fe3f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3848,81 +3848,75 @@ where
         //     [~Yield] yield
         //     [~Await] await
         self.start_span();
+        self.check_identifier()?;
+        let name = self.advance(LexGoal::Div)?.to_string();
+        let assign_target_type = match &name[..] {
+            "eval" | "arguments" if self.ctx.strict => "strict",
+            _ => "simple",
+        };
+        Ok(Node::Identifier {
+            name,
+            assign_target_type,
+            span: self.end_span(),
+        })
+    }
 
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
+    /// The current token must be usable as an identifier here.
+    fn check_identifier(&mut self) -> Result<()> {
         match self.current.tokentype {
             TokenType::Identifier => {
-                let name = self.advance(LexGoal::Div)?.to_string();
-                let assign_target_type = match &name[..] {
-                    "eval" | "arguments" if self.ctx.strict => "strict",
-                    _ => "simple",
-                };
-                Ok(Node::Identifier {
-                    name,
-                    assign_target_type,
-                    span: self.end_span(),
-                })
+                if self.ctx.strict && self.current.is_strict_reserved_kw() {
+                    return self.error_current(ErrorType::UnexpectedStrictReserved);
+                }
+                Ok(())
             }
             TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("yield") => {
+                if self.current.matches_str("yield") =>
+            {
                 if self.params.has_yield {
                     self.error_current(ErrorType::YieldInParameter)
+                } else if self.ctx.strict {
+                    self.error_current(ErrorType::UnexpectedStrictReserved)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    Ok(())
                 }
             }
             TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("await") => {
+                if self.current.matches_str("await") =>
+            {
                 if self.params.has_await {
                     self.error_current(ErrorType::AwaitExpressionFormalParameter)
+                } else if self.is_module_code() {
+                    self.error_current(ErrorType::UnexpectedReserved)
                 } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
+                    Ok(())
                 }
             }
             _ => self.unexpected_current(),
         }
     }
 
+    fn is_module_code(&self) -> bool {
+        match self.goal {
+            SyntaxGoal::Script => false,
+            SyntaxGoal::Module => true,
+            SyntaxGoal::Ambiguous => self.ctx.strict,
+        }
+    }
+
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
         self.start_span();
-
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
-        match self.current.tokentype {
-            TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
-                name: self.advance(LexGoal::Div)?.to_string(),
-                span: self.end_span(),
-            })),
-            TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("yield") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("await") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            _ => self.unexpected_current(),
+        self.check_identifier()?;
+        if self.ctx.strict
+            && (self.current.matches_str("eval") || self.current.matches_str("arguments"))
+        {
+            return self.error_current(ErrorType::StrictEvalArguments);
         }
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
     }
 
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 5f4829b..0fde7ba 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -217,8 +217,12 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match &self.value {
+            Value::Str(name) => match &name[..] {
+                "implements" | "interface" | "let" | "package" | "private" | "protected"
+                | "public" | "static" => true,
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From f2af28ed37aeb33715320e701fc5b550f783f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 42/80] fix: an import specifier binds its name: no reserved
 words

---
 giron/src/parser/parser.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 912fe3f..029d296 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -281,6 +281,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let imported_token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -303,13 +304,16 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
-                        return Err(Error {
-                            line: token.line_num,
-                            col: token.col,
-                            errortype: ErrorType::UnexpectedReserved,
-                        });
+                    // Without "as" the imported name is bound as well.
+                    match imported_token.tokentype {
+                        TokenType::Identifier if imported_token.is_strict_reserved_kw() => {
+                            return this.error(imported_token, ErrorType::UnexpectedStrictReserved);
+                        }
+                        TokenType::Identifier if name == "eval" || name == "arguments" => {
+                            return this.error(imported_token, ErrorType::StrictEvalArguments);
+                        }
+                        TokenType::Identifier => (),
+                        _ => return this.error(imported_token, ErrorType::UnexpectedReserved),
                     }
                     let imported = Identifier {
                         name: name.clone(),
-- 
2.43.0


From cb6f7749666ab78f9cdb8e47e06a5af83ebdd590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 43/80] fix: directive prologues: whole statements only, raw
 text decides, directive field

---
 giron/src/estree/estree.rs |  1 +
 giron/src/parser/parser.rs | 37 ++++++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index c9ea112..5f5733c 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -760,6 +760,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ExpressionStatement")]
     Directive {
         expression: Box<Node>, // Expression
         directive: String,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 029d296..550b1b8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -159,23 +159,30 @@ where
         let mut body = vec![];
         loop {
             match self.current.tokentype {
-                TokenType::StringLiteral => {
-                    self.start_span();
-                    let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
-                        {
-                            self.ctx.strict = true;
+                TokenType::StringLiteral => match self.parse_expression_or_labelled_stmt()? {
+                    Node::ExpressionStatement { expression, span } => match *expression {
+                        Node::Literal { ref raw, .. } => {
+                            // What the source has between the quotes, escapes and all.
+                            let directive = String::from(&raw[1..raw.len() - 1]);
+                            if directive == "use strict" {
+                                self.ctx.strict = true;
+                            }
+                            body.push(Node::Directive {
+                                expression,
+                                directive,
+                                span,
+                            });
+                        }
+                        _ => {
+                            body.push(Node::ExpressionStatement { expression, span });
+                            return Ok(body);
                         }
-                        _ => (),
+                    },
+                    stmt => {
+                        body.push(stmt);
+                        return Ok(body);
                     }
-                    self.consume_semicolon(LexGoal::RegExp)?;
-                    body.push(Node::ExpressionStatement {
-                        expression: Box::from(expr),
-                        span: self.end_span(),
-                    });
-                }
+                },
                 _ => return Ok(body),
             }
         }
-- 
2.43.0


From 13d43bc0339eade8bccf4bd6a92fe39e67af192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 44/80] fix: a reserved word cannot be exported as a local name

---
 giron/src/parser/parser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 550b1b8..6dcfc91 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -458,7 +458,7 @@ where
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                let specifiers = self.parse_named_export_specifiers()?;
+                let (specifiers, reserved) = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
@@ -472,6 +472,9 @@ where
                         })
                     }
                     _ => {
+                        if let Some(token) = reserved {
+                            return self.error(token, ErrorType::UnexpectedReserved);
+                        }
                         self.consume_semicolon(LexGoal::RegExp)?;
                         Ok(Node::ExportNamedDeclaration {
                             declaration: None,
@@ -496,10 +499,18 @@ where
         }
     }
 
-    fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
+    /// The specifiers, and the first reserved word among the local names: those may only be
+    /// re-exported from another module.
+    fn parse_named_export_specifiers(&mut self) -> Result<(Vec<ExportSpecifier>, Option<Token>)> {
         self.consume("{", LexGoal::RegExp)?;
+        let mut reserved = None;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            if this.current.tokentype != TokenType::Identifier
+                || this.current.is_strict_reserved_kw()
+            {
+                reserved.get_or_insert(this.current.clone());
+            }
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
@@ -533,7 +544,7 @@ where
             }
         })?;
         self.consume("}", LexGoal::Div)?;
-        Ok(specifiers)
+        Ok((specifiers, reserved))
     }
 
     // *******************************************************************
-- 
2.43.0


From c6de02e00de89009f92de3e52e57cb20220e01fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 45/80] fix: async function declarations and exported let/async
 declarations

---
 giron/src/parser/parser.rs | 48 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6dcfc91..731ec00 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -374,10 +374,15 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                let is_hoistable = match self.current.tokentype {
+                    TokenType::Keyword => self.current.matches_str("function"),
+                    TokenType::Identifier if self.current.matches_str("async") => {
+                        self.is_async_function_ahead()?
+                    }
+                    _ => false,
+                };
                 match self.current.tokentype {
-                    TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
-                    {
+                    TokenType::Identifier | TokenType::Keyword if is_hoistable => {
                         let declaration = self.with_params(
                             Params {
                                 has_yield: false,
@@ -554,13 +559,13 @@ where
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
@@ -602,22 +607,10 @@ where
             }
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
-                    {
-                        self.scanner.restore_state(next_token);
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => {
-                        self.scanner.restore_state(next_token);
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt()
-                    }
+                if self.is_async_function_ahead()? {
+                    self.with_default(false, &mut Self::parse_hoistable_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt()
                 }
             }
             // declarations
@@ -635,6 +628,17 @@ where
         }
     }
 
+    /// Is the current "async" followed by "function" on the same line?
+    fn is_async_function_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = next_token.tokentype == TokenType::Keyword
+            && next_token.matches_str("function")
+            && !next_token.newline_before;
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
     fn parse_statement(&mut self) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
@@ -1539,7 +1543,7 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
+        if r#async && self.has_line_terminator {
             return self.unexpected_current();
         }
         if !r#async {
-- 
2.43.0


From 0df69a74f27cfa731ecf26019ff11e2cb69d8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 46/80] fix: anonymous classes, and class expressions are
 ClassExpressions

---
 giron/src/parser/parser.rs | 59 +++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 731ec00..ea06fa2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1639,18 +1639,31 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
-            }
-            _ => unreachable!(),
-        }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+        let id = if self.params.has_default {
+            self.parse_class_name()?
+        } else {
+            Some(Box::from(self.parse_binding_id()?.to_node()?))
+        };
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id,
+            super_class,
+            body,
+            span: self.end_span(),
+        })
+    }
+
+    /// The optional name of a class.
+    fn parse_class_name(&mut self) -> Result<Option<Box<Node>>> {
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("{") => Ok(None),
+            TokenType::Keyword if self.current.matches_str("extends") => Ok(None),
+            _ => Ok(Some(Box::from(self.parse_binding_id()?.to_node()?))),
+        }
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
@@ -1671,12 +1684,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
         self.consume("}", LexGoal::Div)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -3204,19 +3212,16 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
-                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                    Some(Box::from(Node::BindingIdentifier { name, span }))
-                }
-                _ => unreachable!(),
-            },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
-        };
-        let res = self.parse_class_tail(id)?;
+        let id = self.parse_class_name()?;
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
     }
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
-- 
2.43.0


From 336e5e59170387f468178827cffb9e51480b7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 47/80] fix: rest elements in destructuring assignments

---
 giron/src/estree/estree.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 5f5733c..b1208ca 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1056,22 +1056,6 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
-            }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
-            }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
-        }
-    }
-
     fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
         let node = self.to_binding_pattern()?;
         match node {
@@ -1105,7 +1089,7 @@ impl Node {
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
@@ -1113,22 +1097,16 @@ impl Node {
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
                 Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                    if i + 1 != len {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
+                    let argument = argument.to_assignment_pattern()?;
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: Binding::Expression(Box::from(argument)),
                         },
                     )))
                 }
@@ -1236,7 +1214,7 @@ impl Node {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: Binding::Expression(Box::from(argument)),
                     });
                 }
             }
-- 
2.43.0


From f27386a6d6a216997000338ce304e8386f405a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 48/80] fix: expr_span covers every node

---
 giron/src/estree/estree.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index b1208ca..815a55c 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -967,7 +967,38 @@ impl Node {
             Node::Super { span, .. } => span,
             Node::TemplateLiteral { span, .. } => span,
             Node::MetaProperty { span, .. } => span,
-            _ => panic!(),
+            Node::AsyncFunctionDeclaration { span, .. } => span,
+            Node::BreakStatement { span, .. } => span,
+            Node::ContinueStatement { span, .. } => span,
+            Node::DebuggerStatement { span, .. } => span,
+            Node::DoWhileStatement { span, .. } => span,
+            Node::EmptyStatement { span, .. } => span,
+            Node::ExpressionStatement { span, .. } => span,
+            Node::Directive { span, .. } => span,
+            Node::ForStatement { span, .. } => span,
+            Node::ForInStatement { span, .. } => span,
+            Node::ForOfStatement { span, .. } => span,
+            Node::FunctionDeclaration { span, .. } => span,
+            Node::IfStatement { span, .. } => span,
+            Node::ReturnStatement { span, .. } => span,
+            Node::SwitchStatement { span, .. } => span,
+            Node::ThrowStatement { span, .. } => span,
+            Node::TryStatement { span, .. } => span,
+            Node::VariableDeclaration { span, .. } => span,
+            Node::WhileStatement { span, .. } => span,
+            Node::WithStatement { span, .. } => span,
+            Node::BlockStatement { span, .. } => span,
+            Node::ClassDeclaration { span, .. } => span,
+            Node::ExportAllDeclaration { span, .. } => span,
+            Node::ExportDefaultDeclaration { span, .. } => span,
+            Node::ExportNamedDeclaration { span, .. } => span,
+            Node::ImportDeclaration { span, .. } => span,
+            Node::ImportDefaultSpecifier { span, .. } => span,
+            Node::ImportNamespaceSpecifier { span, .. } => span,
+            Node::ImportSpecifier { span, .. } => span,
+            Node::LabeledStatement { span, .. } => span,
+            Node::Module { span, .. } => span,
+            Node::Program { span, .. } => span,
         }
     }
 
-- 
2.43.0


From 27edde022254e545a82844f91497cb61b17ab6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 49/80] fix: no comma after the rest element of a pattern

---
 giron/src/estree/estree.rs | 53 +++++++++++++++++++++++++++++++-------
 giron/src/parser/parser.rs | 32 +++++++++++++----------
 2 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 815a55c..f18d2c1 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -68,6 +68,9 @@ pub struct Regex {
 #[serde(tag = "type")]
 pub struct SpreadElement {
     pub argument: Node,
+    // a comma follows: fine in a literal or a call, not in a pattern
+    #[serde(skip)]
+    pub trailing_comma: bool,
     #[serde(skip)]
     pub span: Span,
 }
@@ -331,9 +334,14 @@ impl ArgumentListElement {
     pub fn as_node(self) -> Result<Node> {
         match self {
             ArgumentListElement::Expression(node) => Ok(node),
-            ArgumentListElement::SpreadElement(SpreadElement { argument, span }) => {
+            ArgumentListElement::SpreadElement(SpreadElement {
+                argument,
+                trailing_comma,
+                span,
+            }) => {
                 Ok(Node::SpreadElement {
                     argument: Box::from(argument),
+                    trailing_comma,
                     span,
                 })
             }
@@ -358,6 +366,8 @@ pub enum ObjectExpressionProperty {
     SpreadElement {
         argument: Node,
         #[serde(skip)]
+        trailing_comma: bool,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -693,6 +703,8 @@ pub enum Node {
     SpreadElement {
         argument: Box<Node>,
         #[serde(skip)]
+        trailing_comma: bool,
+        #[serde(skip)]
         span: Span,
     },
     Super {
@@ -1127,8 +1139,12 @@ impl Node {
                     let element = expr.as_assignment_element()?;
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i + 1 != len {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                })) => {
+                    if i + 1 != len || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     let argument = argument.to_assignment_pattern()?;
@@ -1230,8 +1246,12 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i != last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                } => {
+                    if i != last_idx || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     let argument = match argument {
@@ -1275,7 +1295,12 @@ impl Node {
                 right,
                 span,
             }),
-            Node::SpreadElement { argument, span } => Ok(Node::RestElement {
+            Node::SpreadElement {
+                trailing_comma: true,
+                span,
+                ..
+            } => Node::error(ErrorType::ParamAfterRest, span.start),
+            Node::SpreadElement { argument, span, .. } => Ok(Node::RestElement {
                 argument: (*argument).to_strict_binding(span.clone().start)?,
                 span,
             }),
@@ -1291,8 +1316,12 @@ impl Node {
                 Some(ArrayExpressionElement::Expression(expr)) => {
                     pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                })) => {
+                    if i != last_idx || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
@@ -1402,8 +1431,12 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i == last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                } => {
+                    if i == last_idx && !trailing_comma {
                         pat_props.push(ObjectPatternProperty::RestElement {
                             argument: argument.to_strict_binding(span.start)?,
                         });
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ea06fa2..b155d62 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2720,14 +2720,16 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                let res = ArgumentListElement::SpreadElement(SpreadElement {
-                    argument,
-                    span: this.end_span(),
-                });
-                if !this.current.matches_punc(")") {
+                let span = this.end_span();
+                let trailing_comma = !this.current.matches_punc(")");
+                if trailing_comma {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-                Ok(res)
+                Ok(ArgumentListElement::SpreadElement(SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                }))
             }
             _ => {
                 let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
@@ -3385,14 +3387,16 @@ where
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                let res = ObjectExpressionProperty::SpreadElement {
-                    argument,
-                    span: this.end_span(),
-                };
-                if !this.current.matches_punc("}") {
+                let span = this.end_span();
+                let trailing_comma = !this.current.matches_punc("}");
+                if trailing_comma {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-                return Ok(res);
+                return Ok(ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    trailing_comma,
+                    span,
+                });
             }
 
             let mut computed = false;
@@ -3771,11 +3775,13 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                if !this.current.matches_punc("]") {
+                let trailing_comma = !this.current.matches_punc("]");
+                if trailing_comma {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
+                    trailing_comma,
                     span: this.end_span(),
                 })))
             }
-- 
2.43.0


From ccfb4fa922ad74bba6f24b22feb8bc50c3336c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 50/80] fix: binding patterns from expressions: nested
 patterns, no other targets, empty arrays

---
 giron/src/estree/estree.rs | 180 ++++++++++++++++++++++++++++++-------
 giron/src/parser/parser.rs |  54 +----------
 2 files changed, 150 insertions(+), 84 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index f18d2c1..9e5fbea 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -128,6 +128,13 @@ impl Binding {
         }
     }
 
+    fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => node.to_strict_binding(marker),
+            binding => Ok(binding),
+        }
+    }
+
     pub fn to_id(self) -> Result<Identifier> {
         match self {
             Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
@@ -1115,6 +1122,36 @@ impl Node {
         }
     }
 
+    /// A function parameter, from what was parsed as an expression.
+    pub fn to_function_param(self, is_last: bool) -> Result<FunctionParameter> {
+        match self.to_binding_pattern()? {
+            Node::AssignmentPattern { left, right, .. } => {
+                Ok(FunctionParameter::AssignmentPattern {
+                    left,
+                    right: *right,
+                })
+            }
+            Node::BindingIdentifier { name, .. } => {
+                Ok(FunctionParameter::BindingIdentifier { name })
+            }
+            Node::ObjectPattern { properties, .. } => {
+                Ok(FunctionParameter::ObjectPattern { properties })
+            }
+            Node::ArrayPattern { elements, .. } => Ok(FunctionParameter::ArrayPattern { elements }),
+            Node::RestElement { argument, span } => {
+                if is_last {
+                    Ok(FunctionParameter::RestElement { argument })
+                } else {
+                    Node::error(ErrorType::ParamAfterRest, span.start)
+                }
+            }
+            node => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                node.expr_span().start,
+            ),
+        }
+    }
+
     pub fn to_assignment_pattern(self) -> Result<Node> {
         match self {
             Node::ArrayExpression { elements, span, .. } => {
@@ -1279,11 +1316,73 @@ impl Node {
 
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
+            Node::Identifier {
+                assign_target_type: "strict",
+                span,
+                ..
+            } => Node::error(ErrorType::StrictEvalArguments, span.start),
             Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
             Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
                 properties, span, ..
             } => Node::object_to_pattern(properties, span),
+            // The left side of an assignment has been made an assignment pattern already.
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                let mut pat_elems = vec![];
+                for element in elements {
+                    pat_elems.push(match element {
+                        Some(ArrayAssignmentPatternElement::Expression(node)) => {
+                            Some(node.to_array_pattern_element(false)?)
+                        }
+                        Some(ArrayAssignmentPatternElement::RestElement(rest)) => {
+                            Some(ArrayPatternElement::RestElement {
+                                argument: rest.argument.to_strict_binding(span.start.clone())?,
+                            })
+                        }
+                        None => None,
+                    });
+                }
+                Ok(Node::ArrayPattern {
+                    elements: pat_elems,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => {
+                let mut pat_props = vec![];
+                for property in properties {
+                    pat_props.push(match property {
+                        ObjectPatternProperty::Property {
+                            key,
+                            computed,
+                            value: Some(PropertyValue::Expression(node)),
+                            kind,
+                            method,
+                            shorthand,
+                        } => ObjectPatternProperty::Property {
+                            key,
+                            computed,
+                            value: Some(node.to_property_value(span.start.clone())?),
+                            kind,
+                            method,
+                            shorthand,
+                        },
+                        ObjectPatternProperty::RestElement { argument } => {
+                            ObjectPatternProperty::RestElement {
+                                argument: argument.to_strict_binding(span.start.clone())?,
+                            }
+                        }
+                        property => property,
+                    });
+                }
+                Ok(Node::ObjectPattern {
+                    properties: pat_props,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
             Node::AssignmentExpression {
                 operator: "=",
                 left,
@@ -1295,6 +1394,11 @@ impl Node {
                 right,
                 span,
             }),
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_strict_binding(span.clone().start)?,
+                right,
+                span,
+            }),
             Node::SpreadElement {
                 trailing_comma: true,
                 span,
@@ -1304,24 +1408,55 @@ impl Node {
                 argument: (*argument).to_strict_binding(span.clone().start)?,
                 span,
             }),
-            _ => Ok(self),
+            Node::BindingIdentifier { .. }
+            | Node::ArrayPattern { .. }
+            | Node::RestElement { .. } => Ok(self),
+            _ => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                self.expr_span().start,
+            ),
+        }
+    }
+
+    /// The value of a property of a binding pattern.
+    fn to_property_value(self, marker: Marker) -> Result<PropertyValue> {
+        match self.to_binding_pattern()? {
+            Node::AssignmentPattern { left, right, .. } => {
+                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left,
+                    right: *right,
+                }))
+            }
+            Node::BindingIdentifier { name, span } => {
+                Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
+                    name,
+                    span,
+                }))
+            }
+            Node::ObjectPattern { properties, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ObjectPattern { properties },
+            )),
+            Node::ArrayPattern { elements, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ArrayPattern { elements },
+            )),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
         }
     }
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-                    pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
+                    pat_elems.push(Some(expr.to_array_pattern_element(i + 1 == len)?))
                 }
                 Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
                     trailing_comma,
                     span,
                 })) => {
-                    if i != last_idx || trailing_comma {
+                    if i + 1 != len || trailing_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
@@ -1394,31 +1529,9 @@ impl Node {
                     span,
                 } => {
                     let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
+                        Some(PropertyValue::Expression(expr)) => {
+                            expr.to_property_value(span.start).map(Some)
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
@@ -1437,9 +1550,12 @@ impl Node {
                     span,
                 } => {
                     if i == last_idx && !trailing_comma {
-                        pat_props.push(ObjectPatternProperty::RestElement {
-                            argument: argument.to_strict_binding(span.start)?,
-                        });
+                        let argument = argument.to_strict_binding(span.start.clone())?;
+                        if let Binding::BindingIdentifier(_) = argument {
+                            pat_props.push(ObjectPatternProperty::RestElement { argument });
+                        } else {
+                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start);
+                        }
                     } else {
                         return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start);
                     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b155d62..05de572 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2673,32 +2673,7 @@ where
         }
         let last_idx = arguments.len() - 1;
         for (i, argument) in arguments.into_iter().enumerate() {
-            let param = match argument.as_node()?.to_binding_pattern()? {
-                Node::AssignmentPattern { left, right, .. } => {
-                    Ok(FunctionParameter::AssignmentPattern {
-                        left,
-                        right: *right,
-                    })
-                }
-                Node::BindingIdentifier { name, .. } => {
-                    Ok(FunctionParameter::BindingIdentifier { name })
-                }
-                Node::ObjectPattern { properties, .. } => {
-                    Ok(FunctionParameter::ObjectPattern { properties })
-                }
-                Node::ArrayPattern { elements, .. } => {
-                    Ok(FunctionParameter::ArrayPattern { elements })
-                }
-                Node::RestElement { argument, .. } => {
-                    if i == last_idx {
-                        Ok(FunctionParameter::RestElement { argument })
-                    } else {
-                        self.error_current(ErrorType::ParamAfterRest)
-                    }
-                }
-                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
-            }?;
-            params.push(param);
+            params.push(argument.as_node()?.to_function_param(i == last_idx)?);
         }
         Ok(params)
     }
@@ -2820,32 +2795,7 @@ where
         }
         let last_idx = seq.len() - 1;
         for (i, expr) in seq.into_iter().enumerate() {
-            let param = match expr.to_binding_pattern()? {
-                Node::AssignmentPattern { left, right, .. } => {
-                    Ok(FunctionParameter::AssignmentPattern {
-                        left,
-                        right: *right,
-                    })
-                }
-                Node::BindingIdentifier { name, .. } => {
-                    Ok(FunctionParameter::BindingIdentifier { name })
-                }
-                Node::ObjectPattern { properties, .. } => {
-                    Ok(FunctionParameter::ObjectPattern { properties })
-                }
-                Node::ArrayPattern { elements, .. } => {
-                    Ok(FunctionParameter::ArrayPattern { elements })
-                }
-                Node::RestElement { argument, .. } => {
-                    if i == last_idx {
-                        Ok(FunctionParameter::RestElement { argument })
-                    } else {
-                        self.error_current(ErrorType::ParamAfterRest)
-                    }
-                }
-                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
-            }?;
-            params.push(param);
+            params.push(expr.to_function_param(i == last_idx)?);
         }
         Ok(params)
     }
-- 
2.43.0


From db65611ad49fa61535b658fc151472018508f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 51/80] fix: true, false and null are identifier names too

---
 giron/src/parser/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 05de572..fd32164 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3538,7 +3538,11 @@ where
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::EscapedKeyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
@@ -3912,6 +3916,7 @@ where
             TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
                 Ok(self.advance(goal)?.value.string().unwrap())
             }
+            TokenType::BooleanLiteral | TokenType::NullLiteral => Ok(self.advance(goal)?.raw),
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 25d791b866bc56b467e4e268332acf4015a817a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 52/80] fix: break and continue do not reach across functions

---
 giron/src/parser/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fd32164..0e01811 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1605,10 +1605,14 @@ where
     }
 
     fn parse_function_body(&mut self) -> Result<Node> {
-        let prev_in_function = self.ctx.in_function;
-        self.ctx.in_function = true;
+        let prev_in_function = mem::replace(&mut self.ctx.in_function, true);
+        // Loops and switches outside of the function do not count inside of it.
+        let prev_in_iteration = mem::replace(&mut self.ctx.in_iteration, false);
+        let prev_in_switch = mem::replace(&mut self.ctx.in_switch, false);
         let res = self.with_return(true, &mut Self::parse_function_body_block);
         self.ctx.in_function = prev_in_function;
+        self.ctx.in_iteration = prev_in_iteration;
+        self.ctx.in_switch = prev_in_switch;
         res
     }
 
@@ -1617,11 +1621,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
         let mut body = self.parse_directive_prologues()?;
-
-        let prev_in_iteration = self.ctx.in_iteration;
         body.extend(self.parse_statement_list()?);
-        self.ctx.in_iteration = prev_in_iteration;
-
         self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
-- 
2.43.0


From cb59a1e9b6ddfb562e7988cc9f7651dc8c997a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 53/80] fix: function expressions: generators, and their own
 yield and await

---
 giron/src/parser/parser.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0e01811..1dce294 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3201,17 +3201,33 @@ where
         }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
+        let function_params = Params {
+            has_yield: generator,
+            has_await: r#async,
+            ..self.params
+        };
+        // The name of a function expression belongs to the function.
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => {
+                let id =
+                    self.with_params(Params { ..function_params }, &mut Self::parse_binding_id)?;
+                Some(Box::from(id.to_node()?))
+            }
         };
+        let params =
+            self.with_params(Params { ..function_params }, &mut Self::parse_formal_params)?;
+        let body = self.with_params(function_params, &mut Self::parse_function_body)?;
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            params,
+            body: Box::from(body),
             generator,
             expression: false,
             r#async,
-- 
2.43.0


From 5a8dd3db14e45a8ee5d8d56f2695b4ef323bfa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 54/80] fix: the string 'yield' is not a yield expression

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1dce294..60b5bc5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2000,7 +2000,10 @@ where
         //     AsyncArrowFunction[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] "=" AssignmentExpression[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] AssignmentOperator AssignmentExpression[?In, ?Yield, ?Await]
-        if self.params.has_yield && self.current.matches_str("yield") {
+        if self.params.has_yield
+            && self.current.tokentype == TokenType::Keyword
+            && self.current.matches_str("yield")
+        {
             return self.parse_yield_expr();
         }
         self.start_span();
-- 
2.43.0


From 5c808dcb03a57a6ebe4d07bd802a2edd397bb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 55/80] fix: arrow functions: where they can start, what can
 follow, their parameters, async and newlines

---
 giron/src/estree/estree.rs |  10 ++
 giron/src/parser/parser.rs | 348 ++++++++++++++++++++-----------------
 2 files changed, 195 insertions(+), 163 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 9e5fbea..7f4e6e3 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1021,6 +1021,16 @@ impl Node {
         }
     }
 
+    /// An arrow function (one in parentheses is a sequence of one).
+    pub fn is_arrow_function(&self) -> bool {
+        match self {
+            Node::ArrowFunctionExpression { .. } | Node::AsyncArrowFunctionExpression { .. } => {
+                true
+            }
+            _ => false,
+        }
+    }
+
     pub fn assign_target_type(&self) -> &'static str {
         match self {
             Node::ArrayExpression {
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 60b5bc5..a3360b4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -77,6 +77,8 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    // Where the assignment expression being parsed starts: only there can an arrow function start.
+    arrow_start: Option<usize>,
 }
 
 impl<I> Parser<I>
@@ -105,6 +107,7 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            arrow_start: None,
         }
     }
 
@@ -2007,24 +2010,28 @@ where
             return self.parse_yield_expr();
         }
         self.start_span();
+        self.arrow_start = Some(self.current.start);
         let mut lhs = self.parse_conditional_expr()?;
 
-        if let Node::Identifier { name, .. } = &lhs {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
-                }
-                _ => (),
+        if let Node::Identifier { .. } = &lhs {
+            if self.is_arrow_ahead() {
+                let params = vec![lhs.to_function_param(true)?];
+                lhs = self.parse_arrow_function(params, false)?;
             }
         }
+        if lhs.is_arrow_function() {
+            // Nothing can be done to an arrow function that is not in parentheses.
+            self.end_span();
+            return Ok(lhs);
+        }
 
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
-                let token = self.advance(LexGoal::RegExp)?;
                 lhs = lhs.to_assignment_pattern()?;
                 if lhs.assign_target_type() != "simple" {
-                    return self.error(token, ErrorType::InvalidLhsInAssignment);
+                    return self.error_current(ErrorType::InvalidLhsInAssignment);
                 }
+                self.advance(LexGoal::RegExp)?;
                 let rhs = self.parse_assignment_expr()?;
                 Ok(Node::AssignmentExpression {
                     operator: "=",
@@ -2035,11 +2042,11 @@ where
                 })
             }
             TokenType::Punctuator if self.current.is_assign_op() => {
-                let token = self.advance(LexGoal::RegExp)?;
-                let operator = token.value.clone().punc().unwrap().to_str();
                 if lhs.assign_target_type() != "simple" {
-                    return self.error(token, ErrorType::InvalidLhsInAssignment);
+                    return self.error_current(ErrorType::InvalidLhsInAssignment);
                 }
+                let token = self.advance(LexGoal::RegExp)?;
+                let operator = token.value.punc().unwrap().to_str();
                 let rhs = self.parse_assignment_expr()?;
                 Ok(Node::AssignmentExpression {
                     operator,
@@ -2081,9 +2088,6 @@ where
                         span: self.end_span(),
                     })
                 }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
-                }
                 _ => Ok(Node::YieldExpression {
                     argument: Some(Box::from(
                         self.with_yield(true, &mut Self::parse_assignment_expr)?,
@@ -2103,20 +2107,44 @@ where
         }
     }
 
-    fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
-        log!("parse_single_param_arrow_function_expr");
+    /// An arrow on the same line?
+    fn is_arrow_ahead(&self) -> bool {
+        !self.has_line_terminator && self.current.matches_punc("=>")
+    }
+
+    fn parse_arrow_function(
+        &mut self,
+        params: Vec<FunctionParameter>,
+        r#async: bool,
+    ) -> Result<Node> {
+        log!("parse_arrow_function");
+        self.start_span();
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params: vec![FunctionParameter::BindingIdentifier { name }],
-            body,
-            generator: false,
-            expression,
-            r#async: false,
-            assign_target_type: "invalid",
-            span: self.end_span(),
-        })
+        let (body, expression) = self.parse_arrow_body(r#async)?;
+        let span = self.end_span();
+        if r#async {
+            Ok(Node::AsyncArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async,
+                assign_target_type: "invalid",
+                span,
+            })
+        } else {
+            Ok(Node::ArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async,
+                assign_target_type: "invalid",
+                span,
+            })
+        }
     }
 
     fn parse_conditional_expr(&mut self) -> Result<Node> {
@@ -2128,7 +2156,7 @@ where
         //      AssignmentExpression[?In, ?Yield, ?Await]
         self.start_span();
         let expr = self.parse_binary_expr()?;
-        if self.current.matches_punc("?") {
+        if self.current.matches_punc("?") && !expr.is_arrow_function() {
             self.consume("?", LexGoal::RegExp)?;
             let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
             self.consume(":", LexGoal::RegExp)?;
@@ -2149,6 +2177,10 @@ where
         // ExponentiationExpression binop ExponentiationExpression
         self.start_span();
         let lhs = self.parse_exponentiation_expr()?;
+        if lhs.is_arrow_function() {
+            self.end_span();
+            return Ok(lhs);
+        }
         self.precedence_climbing(lhs, 1)
     }
 
@@ -2194,7 +2226,9 @@ where
             self.start_span();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("**") => {
+                TokenType::Punctuator
+                    if self.current.matches_punc("**") && !lhs.is_arrow_function() =>
+                {
                     let operator = self.consume("**", LexGoal::RegExp)?.to_string();
                     let rhs = self.parse_exponentiation_expr()?;
                     Ok(Node::BinaryExpression {
@@ -2274,7 +2308,10 @@ where
             self.start_span();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
-            if !self.has_line_terminator && self.current.is_update_op() {
+            if !self.has_line_terminator
+                && self.current.is_update_op()
+                && !expr.is_arrow_function()
+            {
                 if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
                     return Err(Error {
                         line,
@@ -2338,6 +2375,7 @@ where
     fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
         loop {
             match self.current.tokentype {
+                _ if callee.is_arrow_function() => break,
                 TokenType::Punctuator if self.current.matches_punc("(") => {
                     callee = Node::CallExpression {
                         callee: Box::from(callee),
@@ -2405,6 +2443,7 @@ where
         }?;
         loop {
             match self.current.tokentype {
+                _ if expr.is_arrow_function() => break,
                 TokenType::Punctuator if self.current.matches_punc("[") => {
                     expr = self.parse_computed_member_expr(expr)?
                 }
@@ -2640,28 +2679,16 @@ where
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
         let arguments = self.parse_arguments()?;
-        match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
-                self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
-                let params = self.arguments_to_params(arguments)?;
-                Ok(Node::AsyncArrowFunctionExpression {
-                    id: None,
-                    params,
-                    body,
-                    generator: false,
-                    expression,
-                    r#async: true,
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
-                })
-            }
-            _ => Ok(Node::CallExpression {
+        if self.is_arrow_ahead() {
+            let params = self.arguments_to_params(arguments)?;
+            self.parse_arrow_function(params, true)
+        } else {
+            Ok(Node::CallExpression {
                 callee,
                 arguments,
                 assign_target_type: "invalid",
                 span: self.end_span(),
-            }),
+            })
         }
     }
 
@@ -2670,15 +2697,11 @@ where
         arguments: Vec<ArgumentListElement>,
     ) -> Result<Vec<FunctionParameter>> {
         log!("arguments_to_params");
-        let mut params = vec![];
-        if arguments.is_empty() {
-            return Ok(params);
+        let mut nodes = vec![];
+        for argument in arguments {
+            nodes.push(argument.as_node()?);
         }
-        let last_idx = arguments.len() - 1;
-        for (i, argument) in arguments.into_iter().enumerate() {
-            params.push(argument.as_node()?.to_function_param(i == last_idx)?);
-        }
-        Ok(params)
+        self.seq_to_arrow_params(nodes)
     }
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
@@ -2732,60 +2755,65 @@ where
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingIdentifier[?Yield, ?Await]")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
         self.start_span();
+        let can_arrow = self.arrow_start == Some(self.current.start);
         self.consume("(", LexGoal::RegExp)?;
-        let mut definitely_arrow = false;
-        let expressions =
-            self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
-                TokenType::Punctuator if this.current.matches_punc("...") => {
-                    this.start_span();
-                    this.advance(LexGoal::RegExp)?;
-                    definitely_arrow = true;
-                    Ok(Node::RestElement {
-                        argument: this.parse_binding_id_or_pat()?,
-                        span: this.end_span(),
-                    })
+        let mut expressions = vec![];
+        // Set once the parentheses can only hold the parameters of an arrow function.
+        let mut params = None;
+        loop {
+            match self.current.tokentype {
+                TokenType::Punctuator if self.current.matches_punc(")") => {
+                    if expressions.is_empty() {
+                        params = Some(vec![]);
+                    }
+                    break;
+                }
+                TokenType::Punctuator if self.current.matches_punc("...") && can_arrow => {
+                    let mut list = self.seq_to_arrow_params(mem::take(&mut expressions))?;
+                    self.advance(LexGoal::RegExp)?;
+                    list.push(FunctionParameter::RestElement {
+                        argument: self.parse_binding_id_or_pat()?,
+                    });
+                    params = Some(list);
+                    break;
                 }
                 _ => {
-                    let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                    if !this.current.matches_punc(")") {
-                        this.consume(",", LexGoal::RegExp)?;
-                        if this.current.matches_punc(")") {
-                            definitely_arrow = true;
-                        }
+                    expressions.push(self.with_in(true, &mut Self::parse_assignment_expr)?);
+                    if self.current.matches_punc(")") {
+                        break;
+                    }
+                    self.consume(",", LexGoal::RegExp)?;
+                    if self.current.matches_punc(")") && can_arrow {
+                        params = Some(self.seq_to_arrow_params(mem::take(&mut expressions))?);
+                        break;
+                    } else if self.current.matches_punc(")") {
+                        return self.unexpected_current();
                     }
-                    Ok(expr)
                 }
-            })?;
+            }
+        }
+        if params.is_some() && !can_arrow {
+            return self.unexpected_current();
+        }
         self.consume(")", LexGoal::Div)?;
+        if can_arrow && self.is_arrow_ahead() {
+            let params = match params {
+                Some(params) => params,
+                None => self.seq_to_arrow_params(expressions)?,
+            };
+            return self.parse_arrow_function(params, false);
+        }
+        if params.is_some() {
+            return self.unexpected_current();
+        }
         let assign_target_type = if expressions.len() == 1 {
             (&expressions[0]).assign_target_type()
         } else {
             "invalid"
         };
-        match (definitely_arrow, self.current.matches_punc("=>")) {
-            (true, _) => self.seq_to_arrow(expressions),
-            (false, true) => self.seq_to_arrow(expressions),
-            (false, false) => Ok(Node::SequenceExpression {
-                expressions,
-                assign_target_type,
-                span: self.end_span(),
-            }),
-        }
-    }
-
-    fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
-        log!("seq_to_arrow");
-        let params = self.seq_to_arrow_params(seq)?;
-        self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params,
-            body,
-            generator: false,
-            expression,
-            r#async: false,
-            assign_target_type: "invalid",
+        Ok(Node::SequenceExpression {
+            expressions,
+            assign_target_type,
             span: self.end_span(),
         })
     }
@@ -2793,12 +2821,9 @@ where
     fn seq_to_arrow_params(&mut self, seq: Vec<Node>) -> Result<Vec<FunctionParameter>> {
         log!("seq_to_arrow_params");
         let mut params = vec![];
-        if seq.is_empty() {
-            return Ok(params);
-        }
-        let last_idx = seq.len() - 1;
+        let len = seq.len();
         for (i, expr) in seq.into_iter().enumerate() {
-            params.push(expr.to_function_param(i == last_idx)?);
+            params.push(expr.to_function_param(i + 1 == len)?);
         }
         Ok(params)
     }
@@ -3777,78 +3802,75 @@ where
     fn parse_async_primary_expr(&mut self) -> Result<Node> {
         log!("parse_async_primary_expr");
         self.start_span();
+        let can_arrow = self.arrow_start == Some(self.current.start);
         let id = self.parse_id_reference()?;
-        if !self.has_line_terminator {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("(") => {
-                    self.parse_async_call_or_arrow(Box::from(id))
-                }
-                TokenType::Keyword if self.current.matches_str("function") => {
-                    self.parse_function_expr(true)
-                }
-                _ => {
-                    let param = match self.with_await(true, &mut Self::parse_id_reference)? {
-                        Node::Identifier { name, .. } => {
-                            Ok(FunctionParameter::BindingIdentifier { name })
-                        }
-                        _ => unreachable!(),
-                    }?;
-                    if !self.has_line_terminator && self.current.matches_punc("=>") {
-                        self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
-                        Ok(Node::AsyncArrowFunctionExpression {
-                            id: None,
-                            params: vec![param],
-                            body,
-                            generator: false,
-                            expression,
-                            r#async: true,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        })
-                    } else {
-                        self.unexpected_current()
-                    }
+        if self.has_line_terminator {
+            self.end_span();
+            return Ok(id);
+        }
+        let is_param = match self.current.tokentype {
+            // for (async of ...)
+            TokenType::Identifier if self.current.matches_str("of") => self.is_arrow_param_ahead()?,
+            TokenType::Identifier => true,
+            TokenType::Keyword | TokenType::EscapedKeyword => {
+                self.current.matches_str("yield") || self.current.matches_str("await")
+            }
+            _ => false,
+        };
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("(") && can_arrow => {
+                self.parse_async_call_or_arrow(Box::from(id))
+            }
+            TokenType::Keyword if self.current.matches_str("function") => {
+                self.parse_function_expr(true)
+            }
+            _ if can_arrow && is_param => {
+                let param = self.with_params(
+                    Params {
+                        has_await: true,
+                        ..self.params
+                    },
+                    &mut Self::parse_binding_id,
+                )?;
+                let param = param.to_node()?.to_function_param(true)?;
+                if !self.is_arrow_ahead() {
+                    return self.unexpected_current();
                 }
+                self.parse_arrow_function(vec![param], true)
+            }
+            _ => {
+                self.end_span();
+                Ok(id)
             }
-        } else {
-            self.end_span();
-            Ok(id)
         }
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    /// Is the current word followed by an arrow?
+    fn is_arrow_param_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = next_token.matches_punc("=>");
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
+    fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
-        let body;
-        let mut expression = false;
+        let params = Params {
+            has_await: r#async,
+            has_yield: false,
+            ..self.params
+        };
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                body = Box::from(self.with_params(
-                    Params {
-                        has_await: true,
-                        has_yield: false,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
+                let body = self.with_params(params, &mut Self::parse_function_body)?;
+                Ok((Box::from(body), false))
             }
             _ => {
-                body = Box::from(self.with_params(
-                    Params {
-                        has_await: true,
-                        has_yield: false,
-                        ..self.params
-                    },
-                    &mut Self::parse_assignment_expr,
-                )?);
-                expression = true;
+                let body = self.with_params(params, &mut Self::parse_assignment_expr)?;
+                Ok((Box::from(body), true))
             }
         }
-        Ok((body, expression))
     }
 
     fn parse_id_reference(&mut self) -> Result<Node> {
-- 
2.43.0


From 281a07628c503f95059d066bbc56a24e538aac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 56/80] fix: object literals: modifiers, shorthand values and
 methods

---
 giron/src/parser/parser.rs | 254 ++++++++++++++++---------------------
 giron/src/parser/syntax.rs |  15 +++
 2 files changed, 124 insertions(+), 145 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a3360b4..b826b6c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3393,136 +3393,44 @@ where
                 });
             }
 
-            let mut computed = false;
             let mut r#async = false;
             let mut generator = false;
             let mut kind = "init";
-
+            // get, set and async are modifiers when a property name follows.
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
+                    if this.is_property_name_ahead()? {
+                        this.advance(LexGoal::RegExp)?;
+                        kind = "get";
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
+                    if this.is_property_name_ahead()? {
+                        this.advance(LexGoal::RegExp)?;
+                        kind = "set";
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
-                        }
+                    if this.is_async_method_ahead()? {
+                        this.advance(LexGoal::RegExp)?;
+                        r#async = true;
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
-                }
                 _ => (),
             }
-
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let token = this.advance(LexGoal::RegExp)?;
-                    Ok(PropertyKey::Literal(Literal {
-                        value: token.value,
-                        raw: token.raw,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
-                }
-                _ => this.unexpected_current(),
-            }?;
+            if kind == "init" && this.current.matches_punc("*") {
+                this.advance(LexGoal::RegExp)?;
+                generator = true;
+            }
+            let is_method = kind != "init" || r#async || generator;
+            let first = this.current.clone();
+            let (key, computed) = this.parse_property_name()?;
 
             let property = match this.current.tokentype {
+                TokenType::Punctuator if this.current.matches_punc("(") => {
+                    this.parse_method_definition(key, kind, r#async, generator, computed)?
+                }
+                _ if is_method => return this.unexpected_current(),
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
@@ -3538,33 +3446,18 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
+                _ => {
+                    let value = this.parse_shorthand_value(first)?;
                     ObjectExpressionProperty::Property {
                         key,
                         computed,
-                        value: Some(value),
+                        value: Some(PropertyValue::Expression(value)),
                         kind,
                         method: false,
                         shorthand: true,
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
-                _ => ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value: None,
-                    kind,
-                    method: false,
-                    shorthand: true,
-                    span: this.end_span(),
-                },
             };
             if !this.current.matches_punc("}") {
                 this.consume(",", LexGoal::RegExp)?;
@@ -3579,6 +3472,76 @@ where
         })
     }
 
+    /// The value of the property whose name, the token given, is not followed by a value: the
+    /// identifier of that name, with an initializer if the object is to become a pattern.
+    fn parse_shorthand_value(&mut self, token: Token) -> Result<Node> {
+        let is_word = match token.tokentype {
+            TokenType::Identifier => true,
+            TokenType::Keyword | TokenType::EscapedKeyword => {
+                token.matches_str("yield") || token.matches_str("await")
+            }
+            _ => false,
+        };
+        if !is_word {
+            return self.unexpected_current();
+        }
+        let marker = Marker {
+            line: token.line_num,
+            col: token.col,
+            idx: token.start,
+        };
+        let span = Span {
+            start: marker.clone(),
+            end: marker,
+        };
+        self.check_identifier_token(&token)?;
+        let name = token.to_string();
+        let assign_target_type = match &name[..] {
+            "eval" | "arguments" if self.ctx.strict => "strict",
+            _ => "simple",
+        };
+        let id = Node::Identifier {
+            name,
+            assign_target_type,
+            span: span.clone(),
+        };
+        if self.current.matches_punc("=") {
+            if assign_target_type != "simple" {
+                return self.error_current(ErrorType::StrictEvalArguments);
+            }
+            self.advance(LexGoal::RegExp)?;
+            let right = self.with_in(true, &mut Self::parse_assignment_expr)?;
+            Ok(Node::AssignmentExpression {
+                operator: "=",
+                left: Box::from(id),
+                right: Box::from(right),
+                assign_target_type: "invalid",
+                span,
+            })
+        } else {
+            Ok(id)
+        }
+    }
+
+    /// Does a property name follow the current token?
+    fn is_property_name_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = next_token.is_property_name();
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
+    /// Does the rest of an async method follow the current "async"?
+    fn is_async_method_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = (next_token.is_property_name() || next_token.matches_punc("*"))
+            && !next_token.newline_before;
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
@@ -3895,36 +3858,37 @@ where
 
     /// The current token must be usable as an identifier here.
     fn check_identifier(&mut self) -> Result<()> {
-        match self.current.tokentype {
+        let token = self.current.clone();
+        self.check_identifier_token(&token)
+    }
+
+    fn check_identifier_token(&mut self, token: &Token) -> Result<()> {
+        match token.tokentype {
             TokenType::Identifier => {
-                if self.ctx.strict && self.current.is_strict_reserved_kw() {
-                    return self.error_current(ErrorType::UnexpectedStrictReserved);
+                if self.ctx.strict && token.is_strict_reserved_kw() {
+                    return self.error(token.clone(), ErrorType::UnexpectedStrictReserved);
                 }
                 Ok(())
             }
-            TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("yield") =>
-            {
+            TokenType::Keyword | TokenType::EscapedKeyword if token.matches_str("yield") => {
                 if self.params.has_yield {
-                    self.error_current(ErrorType::YieldInParameter)
+                    self.error(token.clone(), ErrorType::YieldInParameter)
                 } else if self.ctx.strict {
-                    self.error_current(ErrorType::UnexpectedStrictReserved)
+                    self.error(token.clone(), ErrorType::UnexpectedStrictReserved)
                 } else {
                     Ok(())
                 }
             }
-            TokenType::Keyword | TokenType::EscapedKeyword
-                if self.current.matches_str("await") =>
-            {
+            TokenType::Keyword | TokenType::EscapedKeyword if token.matches_str("await") => {
                 if self.params.has_await {
-                    self.error_current(ErrorType::AwaitExpressionFormalParameter)
+                    self.error(token.clone(), ErrorType::AwaitExpressionFormalParameter)
                 } else if self.is_module_code() {
-                    self.error_current(ErrorType::UnexpectedReserved)
+                    self.error(token.clone(), ErrorType::UnexpectedReserved)
                 } else {
                     Ok(())
                 }
             }
-            _ => self.unexpected_current(),
+            _ => self.unexpected(token.clone()),
         }
     }
 
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 0fde7ba..1015071 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -20,6 +20,7 @@ pub trait Syntax {
     fn is_lexical_dclr_or_var_kw(&self) -> bool;
     fn is_dclr_kw(&self) -> bool;
     fn is_strict_reserved_kw(&self) -> bool;
+    fn is_property_name(&self) -> bool;
 }
 
 impl Syntax for Token {
@@ -226,4 +227,18 @@ impl Syntax for Token {
             _ => false,
         }
     }
+
+    fn is_property_name(&self) -> bool {
+        match self.tokentype {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::EscapedKeyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral
+            | TokenType::StringLiteral
+            | TokenType::NumericLiteral => true,
+            TokenType::Punctuator => self.matches_punc("["),
+            _ => false,
+        }
+    }
 }
-- 
2.43.0


From 660520363eaac969745604afe2a74b25604e8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 57/80] fix: a shorthand property with an initializer is only
 for patterns

---
 giron/src/parser/parser.rs | 84 ++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 12 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b826b6c..f7b3193 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -79,6 +79,8 @@ pub struct Parser<I> {
     goal: SyntaxGoal,
     // Where the assignment expression being parsed starts: only there can an arrow function start.
     arrow_start: Option<usize>,
+    // The initializer of a shorthand property ({a = 1}), as long as it can still be in a pattern.
+    cover_init: Option<(usize, usize)>,
 }
 
 impl<I> Parser<I>
@@ -108,6 +110,7 @@ where
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
+            cover_init: None,
         }
     }
 
@@ -890,7 +893,7 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
                         self.parse_for_of_stmt(Box::from(id.to_node()?))
                     }
@@ -1024,10 +1027,11 @@ where
                     }
                     _ => (),
                 }
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
+                let mut expr = self.with_in(false, &mut Self::parse_assignment_cover)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
                         self.end_span(); // not needed
+                        self.cover_init = None;
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
                                 expr.to_assignment_pattern()
@@ -1040,8 +1044,9 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
+                        self.cover_init = None;
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
                                 expr.to_assignment_pattern()
@@ -1055,6 +1060,7 @@ where
                         self.parse_for_of_stmt(Box::from(expr))
                     }
                     _ => {
+                        self.expect_no_cover_init()?;
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
@@ -1995,7 +2001,36 @@ where
     }
 
     fn parse_assignment_expr(&mut self) -> Result<Node> {
-        log!("parse_assignment_expr");
+        self.without_cover_init(&mut Self::parse_assignment_cover)
+    }
+
+    /// Parse something that has to be an expression, and cannot become a pattern later.
+    fn without_cover_init<F, T>(&mut self, parse_fn: &mut F) -> Result<T>
+    where
+        F: FnMut(&mut Self) -> Result<T>,
+    {
+        let outer = self.cover_init.take();
+        let expr = parse_fn(self)?;
+        self.expect_no_cover_init()?;
+        self.cover_init = outer;
+        Ok(expr)
+    }
+
+    /// What was parsed turned out to be an expression.
+    fn expect_no_cover_init(&mut self) -> Result<()> {
+        match self.cover_init.take() {
+            Some((line, col)) => Err(Error {
+                line,
+                col,
+                errortype: ErrorType::InvalidOrUnexpectedToken,
+            }),
+            None => Ok(()),
+        }
+    }
+
+    /// Parse an assignment expression, or what may yet become the pattern of one.
+    fn parse_assignment_cover(&mut self) -> Result<Node> {
+        log!("parse_assignment_cover");
         // AssignmentExpression[In, Yield, Await]:
         //     [+Yield] YieldExpression[?In, ?Await]
         //     ConditionalExpression[?In, ?Yield, ?Await]
@@ -2009,10 +2044,21 @@ where
         {
             return self.parse_yield_expr();
         }
+        let outer = self.cover_init.take();
         self.start_span();
         self.arrow_start = Some(self.current.start);
         let mut lhs = self.parse_conditional_expr()?;
 
+        match lhs {
+            Node::ArrayExpression { .. } | Node::ObjectExpression { .. } => (),
+            _ => self.expect_no_cover_init()?,
+        }
+        if self.current.matches_punc("=") {
+            // It becomes a pattern.
+            self.cover_init = None;
+        }
+        self.cover_init = outer.or(self.cover_init);
+
         if let Node::Identifier { .. } = &lhs {
             if self.is_arrow_ahead() {
                 let params = vec![lhs.to_function_param(true)?];
@@ -2678,11 +2724,15 @@ where
 
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let arguments = self.parse_arguments()?;
+        let outer = self.cover_init.take();
+        let arguments = self.parse_cover_arguments()?;
         if self.is_arrow_ahead() {
+            self.cover_init = outer;
             let params = self.arguments_to_params(arguments)?;
             self.parse_arrow_function(params, true)
         } else {
+            self.expect_no_cover_init()?;
+            self.cover_init = outer;
             Ok(Node::CallExpression {
                 callee,
                 arguments,
@@ -2705,7 +2755,11 @@ where
     }
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
-        log!("parse_arguments");
+        self.without_cover_init(&mut Self::parse_cover_arguments)
+    }
+
+    fn parse_cover_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
+        log!("parse_cover_arguments");
         // Arguments[Yield, Await]:
         //     "(" ")"
         //     "(" ArgumentList[?Yield, ?Await] ")"
@@ -2720,7 +2774,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 let span = this.end_span();
                 let trailing_comma = !this.current.matches_punc(")");
                 if trailing_comma {
@@ -2733,7 +2787,7 @@ where
                 }))
             }
             _ => {
-                let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let expr = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 if !this.current.matches_punc(")") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -2756,6 +2810,7 @@ where
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
         self.start_span();
         let can_arrow = self.arrow_start == Some(self.current.start);
+        let outer = self.cover_init.take();
         self.consume("(", LexGoal::RegExp)?;
         let mut expressions = vec![];
         // Set once the parentheses can only hold the parameters of an arrow function.
@@ -2778,7 +2833,7 @@ where
                     break;
                 }
                 _ => {
-                    expressions.push(self.with_in(true, &mut Self::parse_assignment_expr)?);
+                    expressions.push(self.with_in(true, &mut Self::parse_assignment_cover)?);
                     if self.current.matches_punc(")") {
                         break;
                     }
@@ -2801,8 +2856,11 @@ where
                 Some(params) => params,
                 None => self.seq_to_arrow_params(expressions)?,
             };
+            self.cover_init = outer;
             return self.parse_arrow_function(params, false);
         }
+        self.expect_no_cover_init()?;
+        self.cover_init = outer;
         if params.is_some() {
             return self.unexpected_current();
         }
@@ -3434,7 +3492,7 @@ where
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
+                        this.with_in(true, &mut Self::parse_assignment_cover)?,
                     );
                     ObjectExpressionProperty::Property {
                         key,
@@ -3509,8 +3567,10 @@ where
             if assign_target_type != "simple" {
                 return self.error_current(ErrorType::StrictEvalArguments);
             }
+            let position = (self.current.line_num, self.current.col);
             self.advance(LexGoal::RegExp)?;
             let right = self.with_in(true, &mut Self::parse_assignment_expr)?;
+            self.cover_init = self.cover_init.or(Some(position));
             Ok(Node::AssignmentExpression {
                 operator: "=",
                 left: Box::from(id),
@@ -3735,7 +3795,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 let trailing_comma = !this.current.matches_punc("]");
                 if trailing_comma {
                     this.consume(",", LexGoal::RegExp)?;
@@ -3747,7 +3807,7 @@ where
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let element = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-- 
2.43.0


From e2a98dbbf788dfac24d218b0276bcb55ef892a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 58/80] fix: object binding patterns: keys, shorthand names and
 values, rest

---
 giron/src/parser/parser.rs | 110 ++++++++++++-------------------------
 1 file changed, 34 insertions(+), 76 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f7b3193..2c2681b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,6 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
 struct Context {
     strict: bool,
     in_function: bool,
@@ -2682,7 +2677,9 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Identifier | TokenType::Keyword => self.parse_id_reference(),
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
+                self.parse_id_reference()
+            }
             TokenType::NumericLiteral
             | TokenType::StringLiteral
             | TokenType::BooleanLiteral
@@ -2889,7 +2886,9 @@ where
     fn parse_binding_id_or_pat(&mut self) -> Result<Binding> {
         log!("parse_binding_id_or_pat");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => self.parse_binding_id(),
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword => {
+                self.parse_binding_id()
+            }
             TokenType::Punctuator if self.current.matches_punc("{") => self.parse_obj_binding_pat(),
             TokenType::Punctuator if self.current.matches_punc("[") => self.parse_arr_binding_pat(),
             _ => self.unexpected_current(),
@@ -2927,36 +2926,18 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
                 this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::EscapedKeyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
-                    }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::Div)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
+                let first = this.current.clone();
+                let (key, computed) = this.parse_property_name()?;
                 let span = this.end_span();
                 let property = match this.current.tokentype {
                     TokenType::Punctuator if this.current.matches_punc("=") => {
+                        let name = this.shorthand_binding_name(&first)?;
                         this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
                         let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
                             left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
                             right: this.with_in(true, &mut Self::parse_assignment_expr)?,
@@ -2972,11 +2953,6 @@ where
                     }
                     TokenType::Punctuator if this.current.matches_punc(":") => {
                         this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
                         let (line, col) = (this.current.line_num, this.current.col);
                         let pattern = this.parse_binding_id_or_pat()?;
                         let obj_value = match this.current.tokentype {
@@ -3023,11 +2999,13 @@ where
                         })
                     }
                     _ => {
-                        let key = this.value_to_key(value, false, span)?;
+                        let name = this.shorthand_binding_name(&first)?;
+                        let obj_value =
+                            PropertyValue::BindingIdentifier(BindingIdentifier { name, span });
                         Ok(ObjectPatternProperty::Property {
                             key,
                             computed: false,
-                            value: None,
+                            value: Some(obj_value),
                             kind: "init",
                             method: false,
                             shorthand: true,
@@ -3047,41 +3025,16 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
-            }
-            _ => panic!(),
+    /// The name bound by a property without a value, whose only token is the one given.
+    fn shorthand_binding_name(&mut self, token: &Token) -> Result<String> {
+        match token.tokentype {
+            TokenType::Identifier => (),
+            TokenType::Keyword | TokenType::EscapedKeyword
+                if token.matches_str("yield") || token.matches_str("await") => {}
+            _ => return self.unexpected_current(),
         }
+        self.check_binding_token(token)?;
+        Ok(token.clone().to_string())
     }
 
     fn parse_arr_binding_pat(&mut self) -> Result<Binding> {
@@ -3963,18 +3916,23 @@ where
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
         self.start_span();
-        self.check_identifier()?;
-        if self.ctx.strict
-            && (self.current.matches_str("eval") || self.current.matches_str("arguments"))
-        {
-            return self.error_current(ErrorType::StrictEvalArguments);
-        }
+        let token = self.current.clone();
+        self.check_binding_token(&token)?;
         Ok(Binding::BindingIdentifier(BindingIdentifier {
             name: self.advance(LexGoal::Div)?.to_string(),
             span: self.end_span(),
         }))
     }
 
+    /// The token must be usable as the name of a binding here.
+    fn check_binding_token(&mut self, token: &Token) -> Result<()> {
+        self.check_identifier_token(token)?;
+        if self.ctx.strict && (token.matches_str("eval") || token.matches_str("arguments")) {
+            return self.error(token.clone(), ErrorType::StrictEvalArguments);
+        }
+        Ok(())
+    }
+
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-- 
2.43.0


From d9239bc234750f8401c50877f2ccffde952ee61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 59/80] fix: the regex of a literal and the value of a template
 element are not nodes

---
 giron/src/estree/estree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 7f4e6e3..c02886a 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -58,7 +58,6 @@ pub struct ClassBody {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
     pub flags: String,
@@ -411,7 +410,6 @@ pub struct TemplateElement {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct TemplateElementValue {
     pub cooked: String,
     pub raw: String,
-- 
2.43.0


From ff0e0994e1710d03f734fb5d0c2c7c88251e0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 60/80] fix: class elements and accessors; names in front of a
 strict body; yield and await in arrow parameters; yield without argument

---
 giron/src/errors/errors.rs |   2 +
 giron/src/estree/estree.rs |   8 +
 giron/src/parser/parser.rs | 720 +++++++++++++++++--------------------
 giron/src/parser/syntax.rs |  15 +-
 4 files changed, 343 insertions(+), 402 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 507828e..dfee627 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -124,6 +124,7 @@ pub enum ErrorType {
     InvalidRestBindingPattern,
     UnexpectedStrictReserved,
     StrictEvalArguments,
+    IllegalLanguageModeDirective,
 }
 
 impl fmt::Display for Error {
@@ -164,6 +165,7 @@ impl fmt::Display for Error {
             ErrorType::InvalidRestBindingPattern => write!(f, "`...` must be followed by an identifier in declaration contexts"),
             ErrorType::UnexpectedStrictReserved => write!(f, "Unexpected strict mode reserved word"),
             ErrorType::StrictEvalArguments => write!(f, "Unexpected eval or arguments in strict mode"),
+            ErrorType::IllegalLanguageModeDirective => write!(f, "Illegal 'use strict' directive in function with non-simple parameter list"),
         }
     }
 }
diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index c02886a..f72a394 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -945,6 +945,14 @@ pub enum Node {
 }
 
 impl Node {
+    /// The name of an identifier.
+    pub fn binding_name(&self) -> Option<&str> {
+        match self {
+            Node::BindingIdentifier { name, .. } | Node::Identifier { name, .. } => Some(name),
+            _ => None,
+        }
+    }
+
     pub fn expr_span(self) -> Span {
         match self {
             Node::ArrayExpression { span, .. } => span,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2c2681b..edd2afa 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1,7 +1,7 @@
 use crate::errors::errors::{Error, ErrorType};
 use crate::errors::result::Result;
 use crate::estree::estree::*;
-use crate::parser::syntax::Syntax;
+use crate::parser::syntax::{is_strict_reserved, Syntax};
 use crate::scanner::scanner::{LexGoal, Scanner};
 use crate::span::span::{Marker, Span};
 use crate::token::token::{Token, TokenType};
@@ -76,6 +76,12 @@ pub struct Parser<I> {
     arrow_start: Option<usize>,
     // The initializer of a shorthand property ({a = 1}), as long as it can still be in a pattern.
     cover_init: Option<(usize, usize)>,
+    // Yield and await expressions, and await as an identifier, in what may become the parameters
+    // of an arrow function.
+    yield_or_await: Option<(usize, usize)>,
+    await_id: Option<(usize, usize)>,
+    // Did the last function body turn out to be strict?
+    strict_body: bool,
 }
 
 impl<I> Parser<I>
@@ -106,6 +112,9 @@ where
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
             cover_init: None,
+            yield_or_await: None,
+            await_id: None,
+            strict_body: false,
         }
     }
 
@@ -1580,23 +1589,8 @@ where
             },
         }?;
 
-        let params = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_formal_params,
-        )?;
-
-        let body = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_function_body,
-        )?;
+        let name = id.as_ref().and_then(|id| id.binding_name());
+        let (params, body) = self.parse_params_and_body(name, r#async, generator)?;
         Ok(Node::FunctionDeclaration {
             id,
             params,
@@ -1608,6 +1602,73 @@ where
         })
     }
 
+    /// The parameters and the body of a function.
+    fn parse_params_and_body(
+        &mut self,
+        name: Option<&str>,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<(Vec<FunctionParameter>, Node)> {
+        let (line, col) = (self.current.line_num, self.current.col);
+        let outer_yield_or_await = self.yield_or_await.take();
+        let outer_await_id = self.await_id.take();
+        let function_params = Params {
+            has_yield: generator,
+            has_await: r#async,
+            ..self.params
+        };
+        let params =
+            self.with_params(Params { ..function_params }, &mut Self::parse_formal_params)?;
+        let body = self.with_params(function_params, &mut Self::parse_function_body)?;
+        self.yield_or_await = outer_yield_or_await;
+        self.await_id = outer_await_id;
+        self.check_strict_function(name, &params, line, col)?;
+        Ok((params, body))
+    }
+
+    /// If the body just parsed made its function strict, that goes for the names before it too.
+    fn check_strict_function(
+        &self,
+        name: Option<&str>,
+        params: &[FunctionParameter],
+        line: usize,
+        col: usize,
+    ) -> Result<()> {
+        if !self.strict_body {
+            return Ok(());
+        }
+        let is_simple = params.iter().all(|param| match param {
+            FunctionParameter::BindingIdentifier { .. } => true,
+            _ => false,
+        });
+        if !is_simple && !self.ctx.strict {
+            // The directive comes too late for what is in the parameters.
+            return Err(Error {
+                line,
+                col,
+                errortype: ErrorType::IllegalLanguageModeDirective,
+            });
+        }
+        let param_names = params.iter().filter_map(|param| match param {
+            FunctionParameter::BindingIdentifier { name } => Some(&name[..]),
+            _ => None,
+        });
+        for name in name.into_iter().chain(param_names) {
+            let errortype = match name {
+                "eval" | "arguments" => ErrorType::StrictEvalArguments,
+                "yield" => ErrorType::UnexpectedStrictReserved,
+                _ if is_strict_reserved(name) => ErrorType::UnexpectedStrictReserved,
+                _ => continue,
+            };
+            return Err(Error {
+                line,
+                col,
+                errortype,
+            });
+        }
+        Ok(())
+    }
+
     fn parse_function_body(&mut self) -> Result<Node> {
         let prev_in_function = mem::replace(&mut self.ctx.in_function, true);
         // Loops and switches outside of the function do not count inside of it.
@@ -1627,6 +1688,7 @@ where
         let mut body = self.parse_directive_prologues()?;
         body.extend(self.parse_statement_list()?);
         self.consume("}", LexGoal::Div)?;
+        self.strict_body = self.ctx.strict;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1709,217 +1771,58 @@ where
                 }
                 _ => {
                     let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
+                        TokenType::Identifier if this.current.matches_str("static") => {
+                            let ahead = this.is_class_member_ahead()?;
+                            if ahead {
+                                this.advance(LexGoal::RegExp)?;
+                            }
+                            ahead
                         }
                         _ => false,
                     };
-                    match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            this.consume("(", LexGoal::RegExp)?;
-                            this.consume(")", LexGoal::Div)?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params: vec![],
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "get",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("set") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "set",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("async") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = true;
-                            let generator = match this.current.tokentype {
-                                TokenType::Punctuator
-                                    if !this.has_line_terminator
-                                        && this.current.matches_punc("*") =>
-                                {
-                                    this.advance(LexGoal::RegExp)?;
-                                    true
-                                }
-                                _ => false,
-                            };
-                            if !generator && !this.has_line_terminator {
-                                return this.unexpected_current();
-                            }
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Punctuator if this.current.matches_punc("*") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = false;
-                            let generator = true;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        _ => {
-                            let r#async = false;
-                            let generator = false;
-                            let (key, computed) = this.parse_property_name()?;
-                            let kind = match &key {
-                                PropertyKey::Identifier(Identifier { name, .. }) => {
-                                    if name == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                PropertyKey::Literal(Literal { raw, .. }) => {
-                                    if raw == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                _ => "method",
-                            };
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind,
-                                r#static,
-                            }))
-                        }
+                    let (modifier, r#async, generator) = this.parse_method_modifiers()?;
+                    let (line, col) = (this.current.line_num, this.current.col);
+                    let (key, computed) = this.parse_property_name()?;
+                    let name = match &key {
+                        _ if computed => "",
+                        PropertyKey::Identifier(Identifier { name, .. }) => &name[..],
+                        PropertyKey::Literal(Literal {
+                            value: Value::Str(value),
+                            ..
+                        }) => &value[..],
+                        _ => "",
+                    };
+                    let is_constructor = !r#static && name == "constructor";
+                    if is_constructor && (modifier.is_some() || r#async || generator)
+                        || r#static && name == "prototype"
+                    {
+                        return Err(Error {
+                            line,
+                            col,
+                            errortype: ErrorType::InvalidOrUnexpectedToken,
+                        });
                     }
+                    let kind = match modifier {
+                        Some(kind) => kind,
+                        None if is_constructor => "constructor",
+                        None => "method",
+                    };
+                    let (params, body) = this.parse_method_function(kind, r#async, generator)?;
+                    let value = FunctionExpression {
+                        id: None,
+                        params,
+                        body: Box::from(body),
+                        generator,
+                        expression: false,
+                        r#async,
+                    };
+                    Ok(Some(MethodDefinition {
+                        key: key.as_node(),
+                        computed,
+                        value: Some(value),
+                        kind,
+                        r#static,
+                    }))
                 }
             })?;
         let mut body = vec![];
@@ -2114,9 +2017,10 @@ where
         //     delegate: bool,
         // },
         log!("parse_yield_expr");
+        self.yield_or_await = Some((self.current.line_num, self.current.col));
         self.start_span();
         self.consume_kw("yield", LexGoal::RegExp)?;
-        if !self.has_line_terminator {
+        if !self.has_line_terminator && !self.is_after_expression() {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("*") => {
                     self.advance(LexGoal::RegExp)?;
@@ -2148,6 +2052,19 @@ where
         }
     }
 
+    /// Is the current token one that no expression starts with, but that can follow one?
+    fn is_after_expression(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Eof => true,
+            TokenType::Template => self.current.head != Some(true),
+            TokenType::Punctuator => {
+                let after = [")", "]", "}", ",", ";", ":"];
+                after.iter().any(|punc| self.current.matches_punc(punc))
+            }
+            _ => false,
+        }
+    }
+
     /// An arrow on the same line?
     fn is_arrow_ahead(&self) -> bool {
         !self.has_line_terminator && self.current.matches_punc("=>")
@@ -2159,9 +2076,17 @@ where
         r#async: bool,
     ) -> Result<Node> {
         log!("parse_arrow_function");
+        let (line, col) = (self.current.line_num, self.current.col);
         self.start_span();
         self.consume("=>", LexGoal::RegExp)?;
+        let outer_yield_or_await = self.yield_or_await.take();
+        let outer_await_id = self.await_id.take();
         let (body, expression) = self.parse_arrow_body(r#async)?;
+        self.yield_or_await = outer_yield_or_await;
+        self.await_id = outer_await_id;
+        if !expression {
+            self.check_strict_function(None, &params, line, col)?;
+        }
         let span = self.end_span();
         if r#async {
             Ok(Node::AsyncArrowFunctionExpression {
@@ -2306,6 +2231,7 @@ where
             {
                 self.start_span();
                 if self.current.matches_str("await") {
+                    self.yield_or_await = Some((self.current.line_num, self.current.col));
                     self.advance(LexGoal::RegExp)?;
                     return Ok(Node::AwaitExpression {
                         argument: Box::new(self.parse_unary_expr()?),
@@ -2722,14 +2648,27 @@ where
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
         let outer = self.cover_init.take();
+        let outer_await_id = self.await_id.take();
+        let outer_yield_or_await = self.yield_or_await.take();
         let arguments = self.parse_cover_arguments()?;
         if self.is_arrow_ahead() {
             self.cover_init = outer;
+            if let Some((line, col)) = self.await_id.or(self.yield_or_await) {
+                return Err(Error {
+                    line,
+                    col,
+                    errortype: ErrorType::AwaitExpressionFormalParameter,
+                });
+            }
+            self.await_id = outer_await_id;
+            self.yield_or_await = outer_yield_or_await;
             let params = self.arguments_to_params(arguments)?;
             self.parse_arrow_function(params, true)
         } else {
             self.expect_no_cover_init()?;
             self.cover_init = outer;
+            self.await_id = self.await_id.or(outer_await_id);
+            self.yield_or_await = self.yield_or_await.or(outer_yield_or_await);
             Ok(Node::CallExpression {
                 callee,
                 arguments,
@@ -2808,6 +2747,7 @@ where
         self.start_span();
         let can_arrow = self.arrow_start == Some(self.current.start);
         let outer = self.cover_init.take();
+        let outer_yield_or_await = self.yield_or_await.take();
         self.consume("(", LexGoal::RegExp)?;
         let mut expressions = vec![];
         // Set once the parentheses can only hold the parameters of an arrow function.
@@ -2854,10 +2794,19 @@ where
                 None => self.seq_to_arrow_params(expressions)?,
             };
             self.cover_init = outer;
+            if let Some((line, col)) = self.yield_or_await {
+                return Err(Error {
+                    line,
+                    col,
+                    errortype: ErrorType::YieldInParameter,
+                });
+            }
+            self.yield_or_await = outer_yield_or_await;
             return self.parse_arrow_function(params, false);
         }
         self.expect_no_cover_init()?;
         self.cover_init = outer;
+        self.yield_or_await = self.yield_or_await.or(outer_yield_or_await);
         if params.is_some() {
             return self.unexpected_current();
         }
@@ -3246,23 +3195,25 @@ where
             }
             _ => false,
         };
-        let function_params = Params {
-            has_yield: generator,
-            has_await: r#async,
-            ..self.params
-        };
         // The name of a function expression belongs to the function.
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
             _ => {
-                let id =
-                    self.with_params(Params { ..function_params }, &mut Self::parse_binding_id)?;
+                let outer_await_id = self.await_id;
+                let id = self.with_params(
+                    Params {
+                        has_yield: generator,
+                        has_await: r#async,
+                        ..self.params
+                    },
+                    &mut Self::parse_binding_id,
+                )?;
+                self.await_id = outer_await_id;
                 Some(Box::from(id.to_node()?))
             }
         };
-        let params =
-            self.with_params(Params { ..function_params }, &mut Self::parse_formal_params)?;
-        let body = self.with_params(function_params, &mut Self::parse_function_body)?;
+        let name = id.as_ref().and_then(|id| id.binding_name());
+        let (params, body) = self.parse_params_and_body(name, r#async, generator)?;
         Ok(Node::FunctionExpression {
             id,
             params,
@@ -3311,35 +3262,7 @@ where
                     })
                 }
                 _ => {
-                    let (line, col) = (this.current.line_num, this.current.col);
-                    let left = this.parse_binding_id_or_pat()?;
-                    let param = match this.current.tokentype {
-                        TokenType::Punctuator if this.current.matches_punc("=") => {
-                            this.advance(LexGoal::RegExp)?;
-                            FunctionParameter::AssignmentPattern {
-                                left,
-                                right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                            }
-                        }
-                        _ => match left {
-                            Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
-                                FunctionParameter::BindingIdentifier { name }
-                            }
-                            Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
-                                FunctionParameter::ArrayPattern { elements }
-                            }
-                            Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
-                                FunctionParameter::ObjectPattern { properties }
-                            }
-                            _ => {
-                                return Err(Error {
-                                    line,
-                                    col,
-                                    errortype: ErrorType::InvalidDestructuringTarget,
-                                })
-                            }
-                        },
-                    };
+                    let param = this.parse_formal_param()?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
@@ -3350,6 +3273,37 @@ where
         Ok(parameters)
     }
 
+    fn parse_formal_param(&mut self) -> Result<FunctionParameter> {
+        log!("parse_formal_param");
+        let (line, col) = (self.current.line_num, self.current.col);
+        let left = self.parse_binding_id_or_pat()?;
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("=") => {
+                self.advance(LexGoal::RegExp)?;
+                Ok(FunctionParameter::AssignmentPattern {
+                    left,
+                    right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+                })
+            }
+            _ => match left {
+                Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
+                    Ok(FunctionParameter::BindingIdentifier { name })
+                }
+                Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
+                    Ok(FunctionParameter::ArrayPattern { elements })
+                }
+                Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
+                    Ok(FunctionParameter::ObjectPattern { properties })
+                }
+                _ => Err(Error {
+                    line,
+                    col,
+                    errortype: ErrorType::InvalidDestructuringTarget,
+                }),
+            },
+        }
+    }
+
     fn parse_object_lit_expr(&mut self) -> Result<Node> {
         log!("parse_object_lit_expr");
         // ObjectLiteral[Yield, Await]:
@@ -3404,35 +3358,8 @@ where
                 });
             }
 
-            let mut r#async = false;
-            let mut generator = false;
-            let mut kind = "init";
-            // get, set and async are modifiers when a property name follows.
-            match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("get") => {
-                    if this.is_property_name_ahead()? {
-                        this.advance(LexGoal::RegExp)?;
-                        kind = "get";
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("set") => {
-                    if this.is_property_name_ahead()? {
-                        this.advance(LexGoal::RegExp)?;
-                        kind = "set";
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("async") => {
-                    if this.is_async_method_ahead()? {
-                        this.advance(LexGoal::RegExp)?;
-                        r#async = true;
-                    }
-                }
-                _ => (),
-            }
-            if kind == "init" && this.current.matches_punc("*") {
-                this.advance(LexGoal::RegExp)?;
-                generator = true;
-            }
+            let (kind, r#async, generator) = this.parse_method_modifiers()?;
+            let kind = kind.unwrap_or("init");
             let is_method = kind != "init" || r#async || generator;
             let first = this.current.clone();
             let (key, computed) = this.parse_property_name()?;
@@ -3545,6 +3472,15 @@ where
         Ok(ahead)
     }
 
+    /// Does a method follow the current "static"?
+    fn is_class_member_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = next_token.is_property_name() || next_token.matches_punc("*");
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
     /// Does the rest of an async method follow the current "async"?
     fn is_async_method_ahead(&mut self) -> Result<bool> {
         self.scanner.save_state();
@@ -3608,117 +3544,106 @@ where
         computed: bool,
     ) -> Result<ObjectExpressionProperty> {
         log!("parse_method_definition");
-        match kind {
-            "get" => {
-                self.consume("(", LexGoal::RegExp)?;
-                self.consume(")", LexGoal::Div)?;
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
+        let (params, body) = self.parse_method_function(kind, r#async, generator)?;
+        let body = Box::from(body);
+        let value = if r#async {
+            Some(PropertyValue::AsyncFunctionExpression(
+                AsyncFunctionExpression {
                     id: None,
-                    params: vec![],
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
+                    params,
+                    body,
                     generator,
                     expression: false,
                     r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
+                },
+            ))
+        } else {
+            Some(PropertyValue::FunctionExpression(FunctionExpression {
+                id: None,
+                params,
+                body,
+                generator,
+                expression: false,
+                r#async,
+            }))
+        };
+        Ok(ObjectExpressionProperty::Property {
+            key,
+            computed,
+            value,
+            kind,
+            method: kind == "init",
+            shorthand: false,
+            span: self.end_span(),
+        })
+    }
+
+    /// What comes before the name of a method: get and set are the kind, async and * the flags.
+    fn parse_method_modifiers(&mut self) -> Result<(Option<&'static str>, bool, bool)> {
+        let mut kind = None;
+        let mut r#async = false;
+        let mut generator = false;
+        match self.current.tokentype {
+            TokenType::Identifier if self.current.matches_str("get") => {
+                if self.is_property_name_ahead()? {
+                    self.advance(LexGoal::RegExp)?;
+                    kind = Some("get");
+                }
             }
-            "set" => {
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_formal_params,
-                    )?,
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
+            TokenType::Identifier if self.current.matches_str("set") => {
+                if self.is_property_name_ahead()? {
+                    self.advance(LexGoal::RegExp)?;
+                    kind = Some("set");
+                }
             }
-            "init" => {
-                let params = self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_formal_params,
-                )?;
-                let body = Box::from(self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
-                let value = if r#async {
-                    Some(PropertyValue::AsyncFunctionExpression(
-                        AsyncFunctionExpression {
-                            id: None,
-                            params,
-                            body,
-                            generator,
-                            expression: false,
-                            r#async,
-                        },
-                    ))
-                } else {
-                    Some(PropertyValue::FunctionExpression(FunctionExpression {
-                        id: None,
-                        params,
-                        body,
-                        generator,
-                        expression: false,
-                        r#async,
-                    }))
+            TokenType::Identifier if self.current.matches_str("async") => {
+                if self.is_async_method_ahead()? {
+                    self.advance(LexGoal::RegExp)?;
+                    r#async = true;
+                }
+            }
+            _ => (),
+        }
+        if kind.is_none() && self.current.matches_punc("*") {
+            self.advance(LexGoal::RegExp)?;
+            generator = true;
+        }
+        Ok((kind, r#async, generator))
+    }
+
+    /// The parameters and the body of a method: a getter has no parameter, a setter has one.
+    fn parse_method_function(
+        &mut self,
+        kind: &str,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<(Vec<FunctionParameter>, Node)> {
+        match kind {
+            "get" | "set" => {
+                let (line, col) = (self.current.line_num, self.current.col);
+                let outer_yield_or_await = self.yield_or_await.take();
+                let outer_await_id = self.await_id.take();
+                let function_params = Params {
+                    has_yield: false,
+                    has_await: false,
+                    ..self.params
                 };
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
+                self.consume("(", LexGoal::RegExp)?;
+                let params = match kind {
+                    "set" => vec![self.with_params(
+                        Params { ..function_params },
+                        &mut Self::parse_formal_param,
+                    )?],
+                    _ => vec![],
+                };
+                self.consume(")", LexGoal::Div)?;
+                let body = self.with_params(function_params, &mut Self::parse_function_body)?;
+                self.yield_or_await = outer_yield_or_await;
+                self.await_id = outer_await_id;
+                self.check_strict_function(None, &params, line, col)?;
+                Ok((params, body))
             }
-            _ => self.unexpected_current(),
+            _ => self.parse_params_and_body(None, r#async, generator),
         }
     }
 
@@ -3898,6 +3823,7 @@ where
                 } else if self.is_module_code() {
                     self.error(token.clone(), ErrorType::UnexpectedReserved)
                 } else {
+                    self.await_id = Some((token.line_num, token.col));
                     Ok(())
                 }
             }
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 1015071..2e9ae29 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -219,11 +219,7 @@ impl Syntax for Token {
 
     fn is_strict_reserved_kw(&self) -> bool {
         match &self.value {
-            Value::Str(name) => match &name[..] {
-                "implements" | "interface" | "let" | "package" | "private" | "protected"
-                | "public" | "static" => true,
-                _ => false,
-            },
+            Value::Str(name) => is_strict_reserved(name),
             _ => false,
         }
     }
@@ -242,3 +238,12 @@ impl Syntax for Token {
         }
     }
 }
+
+/// Reserved in strict mode code only (besides yield, which is a keyword).
+pub fn is_strict_reserved(name: &str) -> bool {
+    match name {
+        "implements" | "interface" | "let" | "package" | "private" | "protected" | "public"
+        | "static" => true,
+        _ => false,
+    }
+}
-- 
2.43.0


From 3bc5c1146222dd4a7a04567d8c4f5282d822407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 61/80] fix: for statements: declarations as left side, no in
 operator in the head

---
 giron/src/parser/parser.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index edd2afa..ff3dc4f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -885,7 +885,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -899,11 +899,13 @@ where
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, "var");
+                        self.parse_for_of_stmt(left)
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, "var");
+                        self.parse_for_in_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -913,7 +915,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
@@ -967,7 +969,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -981,11 +983,13 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, kind);
+                        self.parse_for_in_stmt(left)
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_binding(id, kind);
+                        self.parse_for_of_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -995,7 +999,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
@@ -1068,7 +1072,7 @@ where
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
+                            this.with_in(false, &mut Self::parse_assignment_expr)
                         })?);
                         let init = Some(Box::from(Node::SequenceExpression {
                             expressions,
@@ -1082,6 +1086,15 @@ where
         }
     }
 
+    /// The declaration of the variable of a for-in or for-of statement.
+    fn for_binding(&mut self, id: Binding, kind: &'static str) -> Box<Node> {
+        Box::from(Node::VariableDeclaration {
+            declarations: vec![VariableDeclarator { id, init: None }],
+            kind,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
         // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await]
         //     ";" Expression[+In, ?Yield, ?Await](opt)
-- 
2.43.0


From 7c493b9a2b11b7325c71d34b789f72caa2d4d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 62/80] fix: declarations where only a statement can stand

---
 giron/src/parser/parser.rs | 44 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ff3dc4f..b2fda87 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -649,6 +649,15 @@ where
         Ok(ahead)
     }
 
+    /// Is the current token followed by a "["?
+    fn is_bracket_ahead(&mut self) -> Result<bool> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let ahead = next_token.matches_punc("[");
+        self.scanner.restore_state(next_token);
+        Ok(ahead)
+    }
+
     fn parse_statement(&mut self) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
@@ -691,6 +700,28 @@ where
             TokenType::Keyword if self.current.matches_str("debugger") => {
                 self.parse_debugger_stmt()
             }
+            // An expression statement does not start with these, and declarations are not statements.
+            TokenType::Keyword
+                if self.current.matches_str("function") || self.current.matches_str("class") =>
+            {
+                self.unexpected_current()
+            }
+            TokenType::Identifier if self.current.matches_str("async") => {
+                if self.is_async_function_ahead()? {
+                    self.advance(LexGoal::RegExp)?;
+                    self.unexpected_current()
+                } else {
+                    self.parse_expression_or_labelled_stmt()
+                }
+            }
+            TokenType::Identifier if self.current.matches_str("let") => {
+                if self.is_bracket_ahead()? {
+                    self.advance(LexGoal::RegExp)?;
+                    self.unexpected_current()
+                } else {
+                    self.parse_expression_or_labelled_stmt()
+                }
+            }
             // ExpressionStatement | LabelledStatement
             _ => self.parse_expression_or_labelled_stmt(),
         }
@@ -808,11 +839,11 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        let consequent = Box::from(self.parse_statement()?);
+        let consequent = Box::from(self.parse_if_branch()?);
         let alternate = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("else") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_statement()?))
+                Some(Box::from(self.parse_if_branch()?))
             }
             _ => None,
         };
@@ -824,6 +855,15 @@ where
         })
     }
 
+    fn parse_if_branch(&mut self) -> Result<Node> {
+        match self.current.tokentype {
+            // A function can be declared here, in code that is not strict.
+            TokenType::Keyword if self.current.matches_str("function") && !self.ctx.strict => self
+                .with_default(false, &mut |this| this.parse_function_dclr(false, false)),
+            _ => self.parse_statement(),
+        }
+    }
+
     fn parse_iteration_stmt(&mut self) -> Result<Node> {
         log!("parse_iteration_stmt");
         match self.current.tokentype {
-- 
2.43.0


From 189cf0a44d658f2e627532a9068918fa51e2d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 63/80] fix: switch, return and do-while statements

---
 giron/src/parser/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b2fda87..c02d500 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1255,7 +1255,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // A semicolon can always be missing here.
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
@@ -1283,15 +1286,15 @@ where
         // },
         self.start_span();
         self.consume_kw("switch", LexGoal::RegExp)?;
-        let prev_in_switch = self.ctx.in_switch;
-        self.ctx.in_switch = true;
         self.consume("(", LexGoal::RegExp)?;
         let discriminant = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
+        let prev_in_switch = self.ctx.in_switch;
+        self.ctx.in_switch = true;
         self.consume("{", LexGoal::RegExp)?;
         let mut cases = vec![];
         let mut first_default = true;
-        loop {
+        while !self.current.matches_punc("}") {
             let test = match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("case") => {
                     self.advance(LexGoal::RegExp)?;
@@ -1310,10 +1313,6 @@ where
             self.consume(":", LexGoal::RegExp)?;
             let consequent = self.parse_switch_case_consequent()?;
             cases.push(SwitchCase { test, consequent });
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("}") => break,
-                _ => (),
-            }
         }
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.in_switch = prev_in_switch;
@@ -1398,6 +1397,8 @@ where
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator if self.current.matches_punc("}") => None,
+            TokenType::Eof => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From 1d1b0b5f060a3abb56119b152a2b408bcab13a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 64/80] fix: new: nested, and member accesses after new.target

---
 giron/src/parser/parser.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c02d500..ccee045 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2355,10 +2355,7 @@ where
 
     fn parse_left_hand_side_expr(&mut self) -> Result<Node> {
         log!("parse_left_hand_side_expr");
-        match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
-            _ => self.parse_call_expr(),
-        }
+        self.parse_call_expr()
     }
 
     fn parse_call_expr(&mut self) -> Result<Node> {
@@ -2460,6 +2457,7 @@ where
                     _ => self.unexpected_current(),
                 }
             }
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             _ => self.parse_primary_expr(),
         }?;
         loop {
@@ -2575,12 +2573,6 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2589,13 +2581,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                })
             }
         }
     }
-- 
2.43.0


From 4386bec364aead43fce524d12b6d6f9c8c4d7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 65/80] fix: export of let and async function declarations

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ccee045..175bbcf 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -456,7 +456,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
-- 
2.43.0


From 79ba2a0f6dfb69a220c8d68c9a48f5fdc879e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 66/80] fix: white space is that of ECMAScript: U+FEFF, but not
 U+0085

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 0e4f985..c7e1e81 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -120,7 +120,7 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From c69a104227a55cf04eb51b52bc25ba5c4483cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 67/80] fix: words with a special meaning may not be spelled
 with escapes

---
 giron/src/parser/parser.rs | 40 +++++++++++++++++++-------------------
 giron/src/parser/syntax.rs | 12 +++++++++---
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 175bbcf..8bdc4af 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -302,7 +302,7 @@ where
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("as") => {
+                TokenType::Identifier if this.current.matches_word("as") => {
                     let imported = Identifier { name, span };
                     this.advance(LexGoal::RegExp)?;
                     let local = this
@@ -386,7 +386,7 @@ where
                 self.advance(LexGoal::RegExp)?;
                 let is_hoistable = match self.current.tokentype {
                     TokenType::Keyword => self.current.matches_str("function"),
-                    TokenType::Identifier if self.current.matches_str("async") => {
+                    TokenType::Identifier if self.current.matches_word("async") => {
                         self.is_async_function_ahead()?
                     }
                     _ => false,
@@ -475,7 +475,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 let (specifiers, reserved) = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Identifier if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_word("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -528,7 +528,7 @@ where
             }
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("as") => {
+                TokenType::Identifier if this.current.matches_word("as") => {
                     let local = Identifier {
                         name,
                         span: this.end_span(),
@@ -616,7 +616,7 @@ where
                 self.parse_debugger_stmt()
             }
             // special LL(2) grammar case
-            TokenType::Identifier if self.current.matches_str("async") => {
+            TokenType::Identifier if self.current.matches_word("async") => {
                 if self.is_async_function_ahead()? {
                     self.with_default(false, &mut Self::parse_hoistable_dclr)
                 } else {
@@ -706,7 +706,7 @@ where
             {
                 self.unexpected_current()
             }
-            TokenType::Identifier if self.current.matches_str("async") => {
+            TokenType::Identifier if self.current.matches_word("async") => {
                 if self.is_async_function_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     self.unexpected_current()
@@ -714,7 +714,7 @@ where
                     self.parse_expression_or_labelled_stmt()
                 }
             }
-            TokenType::Identifier if self.current.matches_str("let") => {
+            TokenType::Identifier if self.current.matches_word("let") => {
                 if self.is_bracket_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     self.unexpected_current()
@@ -937,7 +937,7 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
-                    TokenType::Identifier if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_word("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
                         let left = self.for_binding(id, "var");
                         self.parse_for_of_stmt(left)
@@ -994,7 +994,7 @@ where
                 self.start_span();
                 let kind = match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("const") => "const",
-                    TokenType::Identifier if self.current.matches_str("let") => "let",
+                    TokenType::Identifier if self.current.matches_word("let") => "let",
                     _ => return self.unexpected_current(),
                 };
                 self.advance(LexGoal::RegExp)?;
@@ -1026,7 +1026,7 @@ where
                         let left = self.for_binding(id, kind);
                         self.parse_for_in_stmt(left)
                     }
-                    TokenType::Identifier if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_word("of") => {
                         // LetOrConst Binding "of" ...
                         let left = self.for_binding(id, kind);
                         self.parse_for_of_stmt(left)
@@ -1092,7 +1092,7 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Identifier if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_word("of") => {
                         self.end_span(); // not needed
                         self.cover_init = None;
                         expr = match expr {
@@ -1567,7 +1567,7 @@ where
         //     AsyncFunctionDeclaration[?Yield, ?Await, ?Default]
         //     AsyncGeneratorDeclaration[?Yield, ?Await, ?Default]
         match self.current.tokentype {
-            TokenType::Identifier if self.current.matches_str("async") => {
+            TokenType::Identifier if self.current.matches_word("async") => {
                 self.start_span();
                 self.advance(LexGoal::RegExp)?;
                 self.parse_function_dclr(true, true)
@@ -1825,7 +1825,7 @@ where
                 }
                 _ => {
                     let r#static = match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("static") => {
+                        TokenType::Identifier if this.current.matches_word("static") => {
                             let ahead = this.is_class_member_ahead()?;
                             if ahead {
                                 this.advance(LexGoal::RegExp)?;
@@ -2553,7 +2553,7 @@ where
             TokenType::Punctuator if self.current.matches_punc(".") => {
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
-                    TokenType::Identifier if self.current.matches_str("target") => {
+                    TokenType::Identifier if self.current.matches_word("target") => {
                         let property = Box::from(Node::Identifier {
                             name: self.advance(LexGoal::Div)?.value.string().unwrap(),
                             assign_target_type: "invalid",
@@ -2636,7 +2636,7 @@ where
             TokenType::Keyword if self.current.matches_str("function") => {
                 self.parse_function_expr(false)
             }
-            TokenType::Identifier if self.current.matches_str("async") => {
+            TokenType::Identifier if self.current.matches_word("async") => {
                 self.parse_async_primary_expr()
             }
             TokenType::Keyword if self.current.matches_str("class") => self.parse_class_expr(),
@@ -3629,19 +3629,19 @@ where
         let mut r#async = false;
         let mut generator = false;
         match self.current.tokentype {
-            TokenType::Identifier if self.current.matches_str("get") => {
+            TokenType::Identifier if self.current.matches_word("get") => {
                 if self.is_property_name_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     kind = Some("get");
                 }
             }
-            TokenType::Identifier if self.current.matches_str("set") => {
+            TokenType::Identifier if self.current.matches_word("set") => {
                 if self.is_property_name_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     kind = Some("set");
                 }
             }
-            TokenType::Identifier if self.current.matches_str("async") => {
+            TokenType::Identifier if self.current.matches_word("async") => {
                 if self.is_async_method_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     r#async = true;
@@ -3756,7 +3756,7 @@ where
         }
         let is_param = match self.current.tokentype {
             // for (async of ...)
-            TokenType::Identifier if self.current.matches_str("of") => self.is_arrow_param_ahead()?,
+            TokenType::Identifier if self.current.matches_word("of") => self.is_arrow_param_ahead()?,
             TokenType::Identifier => true,
             TokenType::Keyword | TokenType::EscapedKeyword => {
                 self.current.matches_str("yield") || self.current.matches_str("await")
@@ -4070,7 +4070,7 @@ where
 
     fn consume_id(&mut self, id: &str, goal: LexGoal) -> Result<Token> {
         match self.current.tokentype {
-            TokenType::Identifier if self.current.matches_str(id) => self.advance(goal),
+            TokenType::Identifier if self.current.matches_word(id) => self.advance(goal),
             _ => self.unexpected_current(),
         }
     }
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 2e9ae29..d93dc94 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -7,6 +7,7 @@ pub trait Syntax {
     fn to_string(self) -> String;
     fn to_str(&self) -> &str;
     fn matches_str(&self, val: &str) -> bool;
+    fn matches_word(&self, val: &str) -> bool;
     fn matches_punc(&self, val: &str) -> bool;
     fn matches_null(&self) -> bool;
     fn is_assign_op(&self) -> bool;
@@ -54,6 +55,11 @@ impl Syntax for Token {
         }
     }
 
+    /// Like matches_str, for words with a special meaning only when spelled without escapes.
+    fn matches_word(&self, val: &str) -> bool {
+        self.raw == val
+    }
+
     fn matches_punc(&self, val: &str) -> bool {
         match &self.value {
             Value::Punc(p) if p == &Punctuator::from(val) => true,
@@ -182,7 +188,7 @@ impl Syntax for Token {
     fn is_hoistable_dclr_kw(&self) -> bool {
         match self.tokentype {
             TokenType::Identifier | TokenType::Keyword => {
-                self.matches_str("async") | self.matches_str("function")
+                self.matches_word("async") | self.matches_str("function")
             }
             _ => false,
         }
@@ -191,7 +197,7 @@ impl Syntax for Token {
     fn is_lexical_dclr_kw(&self) -> bool {
         match self.tokentype {
             TokenType::Identifier | TokenType::Keyword => {
-                self.matches_str("let") | self.matches_str("const")
+                self.matches_word("let") | self.matches_str("const")
             }
             _ => false,
         }
@@ -200,7 +206,7 @@ impl Syntax for Token {
     fn is_lexical_dclr_or_var_kw(&self) -> bool {
         match self.tokentype {
             TokenType::Identifier | TokenType::Keyword => {
-                self.matches_str("let") | self.matches_str("const") | self.matches_str("var")
+                self.matches_word("let") | self.matches_str("const") | self.matches_str("var")
             }
             _ => false,
         }
-- 
2.43.0


From 5fa84883950a03077b4f427d560faadaa115698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 68/80] fix: regular expression flags may not be spelled with
 escapes

---
 giron/src/scanner/scanner.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index c7e1e81..d5ce44b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -657,18 +657,15 @@ where
     }
 
     fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
-        self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
-                }
-            },
-        )
-        .map(|value| value.chars().collect())
+        let flags = self.scan_until_with(
+            |cp| cp == '\\' || !cp.is_identifier_continue(),
+            &mut |this| Ok(this.consume().unwrap()),
+        )?;
+        // Flags may not be spelled with escapes.
+        if self.matches('\\') {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(flags.chars().collect())
     }
 
     // *******************************************************************
-- 
2.43.0


From db8523a363580c1f32611cf613da39e9b06e6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 69/80] fix: a template in a substitution does not end the
 substitution

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8bdc4af..a3eef9d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3162,7 +3162,7 @@ where
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
-            TokenType::Template => {
+            TokenType::Template if self.current.head != Some(true) => {
                 let token = self.advance(LexGoal::Div)?;
                 Ok(TemplateElement {
                     value: TemplateElementValue {
-- 
2.43.0


From b8f3fb0b81abf925046d96e99355b7d8e85544b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 70/80] fix: initializers in object literals that cannot become
 patterns are errors where they stand

---
 giron/src/parser/parser.rs | 42 ++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a3eef9d..4fd7e31 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1980,6 +1980,29 @@ where
         }
     }
 
+    /// An object or array whose initializers make it a pattern has ended: is it used as one?
+    fn expect_pattern_end(&mut self) -> Result<()> {
+        let is_end = ["=", ",", ")", "]", "}"]
+            .iter()
+            .any(|punc| self.current.matches_punc(punc))
+            || self.current.matches_word("of")
+            || (self.current.matches_word("in") && !self.params.has_in);
+        if is_end {
+            Ok(())
+        } else {
+            self.expect_no_cover_init()
+        }
+    }
+
+    /// Parse a part of a literal or parentheses, which may become patterns if cover is set.
+    fn parse_literal_part(&mut self, cover: bool) -> Result<Node> {
+        if cover {
+            self.with_in(true, &mut Self::parse_assignment_cover)
+        } else {
+            self.with_in(true, &mut Self::parse_assignment_expr)
+        }
+    }
+
     /// Parse an assignment expression, or what may yet become the pattern of one.
     fn parse_assignment_cover(&mut self) -> Result<Node> {
         log!("parse_assignment_cover");
@@ -2815,7 +2838,7 @@ where
                     break;
                 }
                 _ => {
-                    expressions.push(self.with_in(true, &mut Self::parse_assignment_cover)?);
+                    expressions.push(self.parse_literal_part(can_arrow)?);
                     if self.current.matches_punc(")") {
                         break;
                     }
@@ -3385,6 +3408,7 @@ where
         //     "get" PropertyName[?Yield, ?Await] "(" ")" "{" FunctionBody[~Yield, ~Await] "}"
         //     "set" PropertyName[?Yield, ?Await] "(" FormalParameter[~Yield, ~Await] ")" "{" FunctionBody[~Yield, ~Await] "}"
         self.start_span();
+        let cover = self.arrow_start == Some(self.current.start);
         self.consume("{", LexGoal::RegExp)?;
         let properties = self.parse_until_punc("}", &mut |this| {
             this.start_span();
@@ -3417,7 +3441,7 @@ where
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_cover)?,
+                        this.parse_literal_part(cover)?,
                     );
                     ObjectExpressionProperty::Property {
                         key,
@@ -3430,7 +3454,7 @@ where
                     }
                 }
                 _ => {
-                    let value = this.parse_shorthand_value(first)?;
+                    let value = this.parse_shorthand_value(first, cover)?;
                     ObjectExpressionProperty::Property {
                         key,
                         computed,
@@ -3448,6 +3472,7 @@ where
             Ok(property)
         })?;
         self.consume("}", LexGoal::Div)?;
+        self.expect_pattern_end()?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
@@ -3457,7 +3482,7 @@ where
 
     /// The value of the property whose name, the token given, is not followed by a value: the
     /// identifier of that name, with an initializer if the object is to become a pattern.
-    fn parse_shorthand_value(&mut self, token: Token) -> Result<Node> {
+    fn parse_shorthand_value(&mut self, token: Token, cover: bool) -> Result<Node> {
         let is_word = match token.tokentype {
             TokenType::Identifier => true,
             TokenType::Keyword | TokenType::EscapedKeyword => {
@@ -3492,6 +3517,9 @@ where
             if assign_target_type != "simple" {
                 return self.error_current(ErrorType::StrictEvalArguments);
             }
+            if !cover {
+                return self.unexpected_current();
+            }
             let position = (self.current.line_num, self.current.col);
             self.advance(LexGoal::RegExp)?;
             let right = self.with_in(true, &mut Self::parse_assignment_expr)?;
@@ -3709,6 +3737,7 @@ where
         // SpreadElement[Yield, Await]:
         //     "..." AssignmentExpression[+In, ?Yield, ?Await]
         self.start_span();
+        let cover = self.arrow_start == Some(self.current.start);
         self.consume("[", LexGoal::RegExp)?;
         let elements = self.parse_until_punc("]", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc(",") => {
@@ -3718,7 +3747,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
+                let argument = this.parse_literal_part(cover)?;
                 let trailing_comma = !this.current.matches_punc("]");
                 if trailing_comma {
                     this.consume(",", LexGoal::RegExp)?;
@@ -3730,7 +3759,7 @@ where
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_cover)?;
+                let element = this.parse_literal_part(cover)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -3738,6 +3767,7 @@ where
             }
         })?;
         self.consume("]", LexGoal::Div)?;
+        self.expect_pattern_end()?;
         Ok(Node::ArrayExpression {
             elements,
             assign_target_type: "invalid",
-- 
2.43.0


From 730900f1c5bb32dfed62ab06df4f3b9fde5fde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 71/80] fix: escaped await and yield as labels of break and
 continue

---
 giron/src/parser/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4fd7e31..7399c7a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1344,7 +1344,9 @@ where
         self.start_span();
         self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword
+                if !self.has_line_terminator =>
+            {
                 Some(Box::from(self.parse_id_reference()?))
             }
             _ => None,
@@ -1370,7 +1372,9 @@ where
         self.start_span();
         self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
+            TokenType::Identifier | TokenType::Keyword | TokenType::EscapedKeyword
+                if !self.has_line_terminator =>
+            {
                 Some(Box::from(self.parse_id_reference()?))
             }
             _ => None,
-- 
2.43.0


From f3a35d39fdd2e466dcb8967c5011c04157eb19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 72/80] fix: literals that cannot become patterns, by what they
 contain

---
 giron/src/parser/parser.rs | 52 +++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7399c7a..81d6330 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,6 +76,8 @@ pub struct Parser<I> {
     arrow_start: Option<usize>,
     // The initializer of a shorthand property ({a = 1}), as long as it can still be in a pattern.
     cover_init: Option<(usize, usize)>,
+    // Where the last literal began that can become a pattern.
+    pattern_start: Option<usize>,
     // Yield and await expressions, and await as an identifier, in what may become the parameters
     // of an arrow function.
     yield_or_await: Option<(usize, usize)>,
@@ -112,6 +114,7 @@ where
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
             cover_init: None,
+            pattern_start: None,
             yield_or_await: None,
             await_id: None,
             strict_body: false,
@@ -1998,13 +2001,22 @@ where
         }
     }
 
-    /// Parse a part of a literal or parentheses, which may become patterns if cover is set.
-    fn parse_literal_part(&mut self, cover: bool) -> Result<Node> {
-        if cover {
-            self.with_in(true, &mut Self::parse_assignment_cover)
-        } else {
-            self.with_in(true, &mut Self::parse_assignment_expr)
+    /// Parse a part of a literal or parentheses, which may become patterns if cover is set, and
+    /// clear cover if this part cannot belong to a pattern.
+    fn parse_literal_part(&mut self, cover: &mut bool) -> Result<Node> {
+        if !*cover {
+            return self.with_in(true, &mut Self::parse_assignment_expr);
         }
+        let start = Some(self.current.start);
+        let part = self.with_in(true, &mut Self::parse_assignment_cover)?;
+        *cover = match &part {
+            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
+                self.pattern_start == start
+            }
+            Node::AssignmentExpression { operator, .. } => *operator == "=",
+            _ => part.assign_target_type() == "simple",
+        };
+        Ok(part)
     }
 
     /// Parse an assignment expression, or what may yet become the pattern of one.
@@ -2818,6 +2830,7 @@ where
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
         self.start_span();
         let can_arrow = self.arrow_start == Some(self.current.start);
+        let mut cover = can_arrow;
         let outer = self.cover_init.take();
         let outer_yield_or_await = self.yield_or_await.take();
         self.consume("(", LexGoal::RegExp)?;
@@ -2842,7 +2855,7 @@ where
                     break;
                 }
                 _ => {
-                    expressions.push(self.parse_literal_part(can_arrow)?);
+                    expressions.push(self.parse_literal_part(&mut cover)?);
                     if self.current.matches_punc(")") {
                         break;
                     }
@@ -3412,16 +3425,19 @@ where
         //     "get" PropertyName[?Yield, ?Await] "(" ")" "{" FunctionBody[~Yield, ~Await] "}"
         //     "set" PropertyName[?Yield, ?Await] "(" FormalParameter[~Yield, ~Await] ")" "{" FunctionBody[~Yield, ~Await] "}"
         self.start_span();
-        let cover = self.arrow_start == Some(self.current.start);
+        let start = Some(self.current.start);
+        let mut cover = self.arrow_start == start;
         self.consume("{", LexGoal::RegExp)?;
         let properties = self.parse_until_punc("}", &mut |this| {
             this.start_span();
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                cover = cover && argument.assign_target_type() == "simple";
                 let span = this.end_span();
                 let trailing_comma = !this.current.matches_punc("}");
                 if trailing_comma {
+                    cover = false;
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 return Ok(ObjectExpressionProperty::SpreadElement {
@@ -3439,13 +3455,14 @@ where
 
             let property = match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("(") => {
+                    cover = false;
                     this.parse_method_definition(key, kind, r#async, generator, computed)?
                 }
                 _ if is_method => return this.unexpected_current(),
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.parse_literal_part(cover)?,
+                        this.parse_literal_part(&mut cover)?,
                     );
                     ObjectExpressionProperty::Property {
                         key,
@@ -3477,6 +3494,9 @@ where
         })?;
         self.consume("}", LexGoal::Div)?;
         self.expect_pattern_end()?;
+        if cover {
+            self.pattern_start = start;
+        }
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
@@ -3741,7 +3761,8 @@ where
         // SpreadElement[Yield, Await]:
         //     "..." AssignmentExpression[+In, ?Yield, ?Await]
         self.start_span();
-        let cover = self.arrow_start == Some(self.current.start);
+        let start = Some(self.current.start);
+        let mut cover = self.arrow_start == start;
         self.consume("[", LexGoal::RegExp)?;
         let elements = self.parse_until_punc("]", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc(",") => {
@@ -3751,9 +3772,13 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.parse_literal_part(cover)?;
+                let argument = this.parse_literal_part(&mut cover)?;
+                if let Node::AssignmentExpression { .. } = &argument {
+                    cover = false;
+                }
                 let trailing_comma = !this.current.matches_punc("]");
                 if trailing_comma {
+                    cover = false;
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
@@ -3763,7 +3788,7 @@ where
                 })))
             }
             _ => {
-                let element = this.parse_literal_part(cover)?;
+                let element = this.parse_literal_part(&mut cover)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -3772,6 +3797,9 @@ where
         })?;
         self.consume("]", LexGoal::Div)?;
         self.expect_pattern_end()?;
+        if cover {
+            self.pattern_start = start;
+        }
         Ok(Node::ArrayExpression {
             elements,
             assign_target_type: "invalid",
-- 
2.43.0


From c32cf5b098645a3ad96a18899f6af28d91df8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 73/80] fix: the operand of a prefix update is no unary
 expression: error at its operator

---
 giron/src/parser/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 81d6330..c2cffd3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2349,6 +2349,9 @@ where
             self.start_span();
             let operator = self.advance(LexGoal::RegExp)?.to_string();
             let (line, col) = (self.current.line_num, self.current.col);
+            if self.current.is_update_op() || self.current.is_unary_op(self.params.has_await) {
+                return self.error_current(ErrorType::InvalidLhsInPrefixOp);
+            }
             let expr = self.parse_unary_expr()?;
             if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
                 return Err(Error {
-- 
2.43.0


From 2ce262e370bdd1cb5da049bfccfc957cf34005cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 74/80] fix: let in front of a bracket in strict code is the
 offending token

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c2cffd3..371481b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -718,7 +718,7 @@ where
                 }
             }
             TokenType::Identifier if self.current.matches_word("let") => {
-                if self.is_bracket_ahead()? {
+                if !self.ctx.strict && self.is_bracket_ahead()? {
                     self.advance(LexGoal::RegExp)?;
                     self.unexpected_current()
                 } else {
-- 
2.43.0


From 80fbb03d82e925eff6a24128cf12d1e05378bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 75/80] fix: unexpected-token errors name regular expressions;
 the end of the text is no token null

---
 giron/src/parser/parser.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 371481b..42ee350 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4219,13 +4219,17 @@ where
     }
 
     fn unexpected<T>(&self, token: Token) -> Result<T> {
-        match &token.tokentype {
-            _ => Err(Error {
-                line: token.line_num,
-                col: token.col,
-                errortype: ErrorType::UnexpectedToken(String::from(&token.value)),
-            }),
-        }
+        let errortype = match &token.tokentype {
+            TokenType::Eof => ErrorType::UnexpectedEOS,
+            // The value of a regular expression is empty.
+            TokenType::RegularExpression => ErrorType::UnexpectedToken(token.raw),
+            _ => ErrorType::UnexpectedToken(String::from(&token.value)),
+        };
+        Err(Error {
+            line: token.line_num,
+            col: token.col,
+            errortype,
+        })
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-- 
2.43.0


From e3de97e5fb4546360fc154b6902f0a6082f37d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 76/80] fix: async of: only the head of a for statement gives
 of its meaning

---
 giron/src/parser/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 42ee350..de3965e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,6 +76,8 @@ pub struct Parser<I> {
     arrow_start: Option<usize>,
     // The initializer of a shorthand property ({a = 1}), as long as it can still be in a pattern.
     cover_init: Option<(usize, usize)>,
+    // Where the head of the last for statement began, if with an expression.
+    for_start: Option<usize>,
     // Where the last literal began that can become a pattern.
     pattern_start: Option<usize>,
     // Yield and await expressions, and await as an identifier, in what may become the parameters
@@ -114,6 +116,7 @@ where
             goal: SyntaxGoal::Ambiguous,
             arrow_start: None,
             cover_init: None,
+            for_start: None,
             pattern_start: None,
             yield_or_await: None,
             await_id: None,
@@ -1078,6 +1081,7 @@ where
                     }
                     _ => (),
                 }
+                self.for_start = Some(self.current.start);
                 let mut expr = self.with_in(false, &mut Self::parse_assignment_cover)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
@@ -3814,6 +3818,7 @@ where
         log!("parse_async_primary_expr");
         self.start_span();
         let can_arrow = self.arrow_start == Some(self.current.start);
+        let in_for_head = self.for_start == Some(self.current.start);
         let id = self.parse_id_reference()?;
         if self.has_line_terminator {
             self.end_span();
@@ -3821,7 +3826,9 @@ where
         }
         let is_param = match self.current.tokentype {
             // for (async of ...)
-            TokenType::Identifier if self.current.matches_word("of") => self.is_arrow_param_ahead()?,
+            TokenType::Identifier if in_for_head && self.current.matches_word("of") => {
+                self.is_arrow_param_ahead()?
+            }
             TokenType::Identifier => true,
             TokenType::Keyword | TokenType::EscapedKeyword => {
                 self.current.matches_str("yield") || self.current.matches_str("await")
-- 
2.43.0


From 3aed025f0b84829b2a4883f23eef64d84e1cc239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 77/80] fix: an unexpected character in an escape is not
 skipped before it is reported

---
 giron/src/scanner/scanner.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d5ce44b..252871f 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -286,8 +286,9 @@ where
         } else {
             let mut value = 0;
             for _ in 0..4 {
-                match self.consume() {
+                match self.peek() {
                     Some(cp) if cp.is_hex_digit() => {
+                        self.consume();
                         value = value * 16 + cp.to_digit(16).unwrap();
                     }
                     _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
@@ -1087,8 +1088,11 @@ where
     }
 
     fn expect(&mut self, expected: char) -> Result<()> {
-        match self.consume() {
-            Some(cp) if cp == expected => Ok(()),
+        match self.peek() {
+            Some(cp) if cp == expected => {
+                self.consume();
+                Ok(())
+            }
             _ => self.error(ErrorType::InvalidOrUnexpectedToken),
         }
     }
-- 
2.43.0


From a762cc86153d381911e74de5f5769e42092e1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 78/80] fix: an unexpected character in a hexadecimal escape is
 not skipped before it is reported

---
 giron/src/scanner/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 252871f..afd2b7c 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -558,8 +558,9 @@ where
         self.expect('x')?;
         let mut value = 0;
         for _ in 0..2 {
-            match self.consume() {
+            match self.peek() {
                 Some(cp) if cp.is_hex_digit() => {
+                    self.consume();
                     value = value * 16 + cp.to_digit(16).unwrap();
                 }
                 _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
-- 
2.43.0


From e9ba18d6e9bfa38bab8aad720f6b9f637bbab456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 79/80] fix: yield and await expressions in a function's own
 parameters are errors

---
 giron/src/parser/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index de3965e..543b403 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1684,6 +1684,18 @@ where
         };
         let params =
             self.with_params(Params { ..function_params }, &mut Self::parse_formal_params)?;
+        if let Some((line, col)) = self.yield_or_await {
+            let errortype = if generator {
+                ErrorType::YieldInParameter
+            } else {
+                ErrorType::AwaitExpressionFormalParameter
+            };
+            return Err(Error {
+                line,
+                col,
+                errortype,
+            });
+        }
         let body = self.with_params(function_params, &mut Self::parse_function_body)?;
         self.yield_or_await = outer_yield_or_await;
         self.await_id = outer_await_id;
-- 
2.43.0


From 14714bdb0e63ff22f74ba533e9a4ceb30e7ed8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 80/80] fix: a "use strict" directive after parameters that are
 not simple is an error in strict code too

---
 giron/src/parser/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 543b403..c313015 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -84,7 +84,7 @@ pub struct Parser<I> {
     // of an arrow function.
     yield_or_await: Option<(usize, usize)>,
     await_id: Option<(usize, usize)>,
-    // Did the last function body turn out to be strict?
+    // Did the last function body have a "use strict" directive?
     strict_body: bool,
 }
 
@@ -1703,7 +1703,7 @@ where
         Ok((params, body))
     }
 
-    /// If the body just parsed made its function strict, that goes for the names before it too.
+    /// If the body just parsed has a "use strict" directive, that goes for the names before it too.
     fn check_strict_function(
         &self,
         name: Option<&str>,
@@ -1718,7 +1718,7 @@ where
             FunctionParameter::BindingIdentifier { .. } => true,
             _ => false,
         });
-        if !is_simple && !self.ctx.strict {
+        if !is_simple {
             // The directive comes too late for what is in the parameters.
             return Err(Error {
                 line,
@@ -1763,9 +1763,13 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
         let mut body = self.parse_directive_prologues()?;
+        let strict_body = body.iter().any(|stmt| match stmt {
+            Node::Directive { directive, .. } => directive == "use strict",
+            _ => false,
+        });
         body.extend(self.parse_statement_list()?);
         self.consume("}", LexGoal::Div)?;
-        self.strict_body = self.ctx.strict;
+        self.strict_body = strict_body;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
-- 
2.43.0

