From 9418abcfb3a7b323f302b74cc8b3868371612d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/18] fix: do not slice the source inside a multi-byte
 character

Strings, ellipses and symbols with non-ASCII characters made tokenize panic,
because character counts were used as byte offsets.
---
 src/lexer/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..1d23ba1 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -68,7 +68,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
@@ -124,7 +124,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
@@ -363,7 +363,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len = code.chars().next().map_or(code.len(), char::len_utf8);
+        let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 036d9c43a150a8f5283cc50923304188b98ae096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 02/18] fix: an escaped colon does not escape the quote after
 it

"a::" is a complete literal: the second colon belongs to the first one.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 1d23ba1..a6b0b6e 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -77,7 +77,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From fe19ab0756700c359e95432ba2c96a63ea0af7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 03/18] fix: recognize a number at the very end of the source

---
 src/lexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index a6b0b6e..51ec15e 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -26,9 +26,9 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
 
-    let number_str = &code[0..position];
+    let number_str = &code[0..position.unwrap_or(code.len())];
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
     } else {
-- 
2.43.0


From 86a5dea03fa1bddd40a3b1a5460f936977e19105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/18] fix: tokenize "?" as a QuestionMark

The branch compared against a comma a second time, so TokenType::QuestionMark
was never produced. O RLY? and WTF? accept it now, besides the bare symbol.
---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 51ec15e..3cd53e3 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -244,7 +244,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From a2329371a194be8b7fed5a9e31e6ba9efc88311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 05/18] fix: match keywords, booleans and NOOB as whole words
 only

A keyword that was only the beginning of a longer word (R in Result, AN in
ANY OF, WIN in WINNER) was split from it.
---
 src/lexer/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 3cd53e3..5f924f2 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -37,11 +37,24 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+fn is_identifier_char(char: char) -> bool {
+    char == '_' || (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z')
+}
+
+/// Checks if the code starts with the given word. If the word is only the beginning of a longer
+/// word, then it's a match for that longer word, and not for the given one.
+fn starts_with_word(code: &str, word: &str) -> bool {
+    match code.strip_prefix(word) {
+        Some(rest) => !rest.starts_with(is_identifier_char),
+        None => false,
+    }
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -55,9 +68,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
     let non_ident_position = code
         .chars()
         .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
-        })
+        .take_while(|char| is_identifier_char(*char))
         .count();
 
     if non_ident_position == 0 {
@@ -134,9 +145,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -146,7 +157,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From dc09808f811bb0f9b3e1e37801ebad3965bf36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 06/18] fix: accept digits inside identifiers

---
 src/lexer/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 5f924f2..614ad3c 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -38,7 +38,10 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
 }
 
 fn is_identifier_char(char: char) -> bool {
-    char == '_' || (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z')
+    char == '_'
+        || (char >= 'a' && char <= 'z')
+        || (char >= 'A' && char <= 'Z')
+        || (char >= '0' && char <= '9')
 }
 
 /// Checks if the code starts with the given word. If the word is only the beginning of a longer
@@ -65,6 +68,10 @@ fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
 }
 
 fn parse_identifier(code: &str) -> Option<&str> {
+    if code.starts_with(|char: char| char >= '0' && char <= '9') {
+        return None;
+    }
+
     let non_ident_position = code
         .chars()
         .into_iter()
-- 
2.43.0


From 604363399b9902a1beafba9a8315663811e97e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 07/18] fix: count the newlines inside multi-line tokens

---
 src/lexer/position.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..469be34 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -40,19 +40,21 @@ impl PartialOrd for Position {
 
 impl Add<&str> for Position {
     type Output = Position;
-    fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+    fn add(mut self, rhs: &str) -> Self::Output {
+        self += rhs;
+        self
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        match rhs.rfind('\n') {
+            Some(last_newline) => {
+                self.line = self.line + rhs.matches('\n').count() as i32;
+                self.column = (rhs.len() - last_newline) as i32;
+            }
+            None => self.column = self.column + rhs.len() as i32,
+        }
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
-- 
2.43.0


From 4c640c00afa908b4b29dbef201aabf181d3d97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 08/18] fix: order positions by what their equality compares

---
 src/lexer/position.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index 469be34..95eee0d 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -34,7 +34,7 @@ impl Eq for Position {}
 
 impl PartialOrd for Position {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.bytes.cmp(&other.bytes))
+        Some((self.line, self.column).cmp(&(other.line, other.column)))
     }
 }
 
-- 
2.43.0


From f2bcdeaa3c9d7f65448c665e547b7d90e619a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 09/18] fix: treat a carriage return as whitespace

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 614ad3c..96f62ab 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -126,7 +126,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From 57638ca435d6c86421a22f3c7f7951d762837b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 10/18] fix: continue the statement on the line where a
 multi-line token ends

---
 src/lexer/range.rs               | 4 ++++
 src/parser/statement_iterator.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..c3c0075 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,7 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 0f2e9a352377a662625ee06fe7ea68fc52884427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 11/18] fix: report a variable followed by an unexpected token
 instead of panicking

---
 src/parser/statements/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..c32b5fe 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -1,4 +1,4 @@
-use self::assignment::VariableAssignment;
+use self::assignment::{VariableAssignment, VariableAssignmentError};
 use self::bukkit_set_slot::BukkitSetSlot;
 use self::found_yr::FoundYr;
 use self::gimmeh::Gimmeh;
@@ -216,8 +216,7 @@ pub(crate) fn parse_statement(
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
 
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            Some(_) => Err(VariableAssignmentError::MissingR(variable_access.last_token()).into()),
         };
     }
 
-- 
2.43.0


From 636966ef98127e45658fd93440716acf4a58fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 12/18] fix: report the unsupported MAEK operation instead of
 panicking

---
 src/parser/expression/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..7997387 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,6 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From 980ec4a477ccb12ec63b752f3d3b069d7baa97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 13/18] fix: do not swallow the statement after HAI, HOW IZ I,
 WTF? or an error

These statements moved the iterator to the next statement themselves, and
then parse_block moved it again.
---
 src/parser/blocks.rs              | 8 +++++---
 src/parser/statement_iterator.rs  | 3 ++-
 src/parser/statements/hai.rs      | 2 +-
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 5 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..78f7129 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -142,9 +142,11 @@ fn parse_block(
             None => {}
         };
 
-        statement_iterator
-            .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+        let remaining_tokens = statement_iterator.next_statement();
+        if !remaining_tokens.is_empty() {
+            let error = ASTErrorType::TooManyTokens(remaining_tokens);
+            block.0.push_back(error.into());
+        }
 
         match statement_iterator.peek() {
             Some(token) if should_stop_at_token(token) => break,
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index c3c0075..8e66610 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -50,10 +50,11 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..014c569 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.by_ref().collect(),
         })
     }
 }
diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From a87e19cdebcc50e1224e58791b227303f8f157cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 14/18] fix: allow a block with no statements

---
 src/parser/blocks.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 78f7129..a6035ab 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -135,6 +135,11 @@ fn parse_block(
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
     loop {
+        match statement_iterator.peek() {
+            Some(token) if should_stop_at_token(token) => break,
+            _ => {}
+        }
+
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
                 parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),
@@ -148,10 +153,8 @@ fn parse_block(
             block.0.push_back(error.into());
         }
 
-        match statement_iterator.peek() {
-            Some(token) if should_stop_at_token(token) => break,
-            None => break,
-            Some(_) => {}
+        if statement_iterator.peek().is_none() {
+            break;
         }
     }
     block
-- 
2.43.0


From d455679f2fbf82839db06c9c4b6f3f7af662b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 15/18] fix: do not stop parsing at a statement with only an
 ellipsis

---
 src/parser/statement_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 8e66610..d4fb7ba 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -65,7 +65,7 @@ impl StatementIterator {
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
-- 
2.43.0


From cca5bf8e90b619c2f5fefd74a0c10ac654005b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 16/18] fix: ignore comments when parsing

---
 src/parser/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3746de2..e4b1072 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -1,4 +1,4 @@
-use crate::lexer::Token;
+use crate::lexer::{Token, TokenType};
 use statements::parse_statement;
 
 use self::{blocks::parse_block_root, statement_iterator::StatementIterator};
@@ -16,6 +16,15 @@ pub mod statements;
 
 /// Transforms an array of tokens into an ASTBlock, which is an array of statements.
 pub fn parse(tokens: Vec<Token>) -> ASTBlock {
+    let tokens = tokens
+        .into_iter()
+        .filter(|token| {
+            !matches!(
+                token.token_type,
+                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+            )
+        })
+        .collect();
     let mut line_iterator = StatementIterator::new(tokens);
     return parse_block_root(&mut line_iterator);
 }
-- 
2.43.0


From f5f11e079ea82e874fbbf277102c128425d52b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 17/18] fix: iterate over the errors of a block instead of
 panicking

---
 src/parser/blocks.rs | 51 ++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index a6035ab..f1cfb26 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The statements that were not visited yet. The last one is the next to be visited.
+    pending: Vec<&'a Node>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            pending: first_block.0.iter().rev().collect(),
         }
     }
 }
@@ -76,46 +73,26 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
-    type Item = ASTErrorType;
+    type Item = &'a ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
+        while let Some(node) = self.pending.pop() {
+            if let Node::ASTError(error) = node {
+                return Some(error);
+            }
+            for block in node.get_inner_block().into_iter().flatten().rev() {
+                self.pending.extend(block.0.iter().rev());
+            }
+        }
 
-        todo!()
+        None
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From 3ab65633a4526a8cb3cfda68011a50a381569705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 18/18] fix: do not take the first dot of an ellipsis as part
 of a number

---
 src/lexer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 96f62ab..469771a 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -13,6 +13,8 @@ pub use token::{NumberToken, Token, TokenError, TokenType, TokenValue};
 mod tests;
 
 fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
+    // The dots of an ellipsis right after the number are not part of it
+    let code = &code[..code.find("...").unwrap_or(code.len())];
     let mut has_dot_been_used = false;
     let position = code.chars().enumerate().position(|(index, char)| {
         if index as i32 == 0 && (char == '-' || char == '+') {
-- 
2.43.0

