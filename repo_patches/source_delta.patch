From 2df9e647bda711002be604d86aa8cd769208ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 01/18] dst: guarded simulation hooks (cfg(dst), off by
 default)

---
 src/main.rs                 | 4 ++++
 src/parser/nodes.rs         | 1 +
 src/parser/parser.rs        | 8 +++++++-
 src/parser/source_buffer.rs | 6 ++++++
 src/parser/tokens.rs        | 1 +
 src/parser/trivias.rs       | 1 +
 6 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 50cf17e..69f55fa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,10 @@
+#![allow(unexpected_cfgs)]
 extern crate core;
 
+#[cfg(not(dst))]
 mod parser;
+#[cfg(dst)]
+pub mod parser; // Simulation build only: lets the simulator drive the parser as a library.
 
 use parser::nodes::{ASTNode};
 use crate::parser::expressions::Expressions;
diff --git a/src/parser/nodes.rs b/src/parser/nodes.rs
index 2ceafd4..253bac8 100644
--- a/src/parser/nodes.rs
+++ b/src/parser/nodes.rs
@@ -2,6 +2,7 @@
 use crate::parser::tokens::{ Token };
 
 #[derive(Clone)]
+#[cfg_attr(dst, derive(Debug))]
 pub enum ASTNode {
     NamedExpr(u32, u32, Box<ASTNode>, Box<Token>, Box<ASTNode>),
     Test(u32, u32, Box<ASTNode>, Box<Token>, Box<ASTNode>, Box<Token>, Box<ASTNode>),
diff --git a/src/parser/parser.rs b/src/parser/parser.rs
index b470d5c..df8f390 100644
--- a/src/parser/parser.rs
+++ b/src/parser/parser.rs
@@ -29,4 +29,10 @@ impl Parser for PythonCoreParser {
         self.symbol = self.lexer.get_symbol()
     }
 
-}
\ No newline at end of file
+}
+
+#[cfg(dst)]
+impl PythonCoreParser {
+    /// Simulation build only: lets the simulator see the lookahead between requests.
+    pub fn dst_symbol(&self) -> &Result<Box<Token>, String> { &self.symbol }
+}
diff --git a/src/parser/source_buffer.rs b/src/parser/source_buffer.rs
index 5b04c65..c91a520 100644
--- a/src/parser/source_buffer.rs
+++ b/src/parser/source_buffer.rs
@@ -1,4 +1,7 @@
 
+#[cfg(dst)]
+extern "Rust" { fn __dst_tick(op: u8); } // Simulation build only: the simulator's seam at each source read.
+
 pub struct SourceBuffer {
     source_buffer: Box<Vec<char>>,
     index: u32
@@ -24,12 +27,14 @@ impl SourceBufferFunctionality for SourceBuffer {
     }
 
     fn get_char(&self) -> char {
+        #[cfg(dst)] unsafe { __dst_tick(0) }
         let index_local = *&self.index as usize;
         let max = *&self.source_buffer.len() as usize;
         if index_local < max { *&(self.source_buffer[index_local]).clone() } else { '\0'.clone() }
     }
 
     fn peek_three_chars(&self) -> ( char, char, char ) {
+        #[cfg(dst)] unsafe { __dst_tick(1) }
         let index_local = *&self.index as usize;
         let max = *&self.source_buffer.len() as usize;
         let a = if index_local < max { &*&(self.source_buffer[index_local]) } else { &'\0' };
@@ -39,6 +44,7 @@ impl SourceBufferFunctionality for SourceBuffer {
     }
 
     fn advance(&mut self) -> () {
+        #[cfg(dst)] unsafe { __dst_tick(2) }
         self.index += 1
     }
 
diff --git a/src/parser/tokens.rs b/src/parser/tokens.rs
index 84a4ade..9b6b475 100644
--- a/src/parser/tokens.rs
+++ b/src/parser/tokens.rs
@@ -2,6 +2,7 @@
 use crate::parser::trivias::{ Trivia };
 
 #[derive(Clone)]
+#[cfg_attr(dst, derive(Debug))]
 pub enum Token {
     PyFalse(u32, u32, Option<Box<Vec<Box<Trivia>>>>),
     PyNone(u32, u32, Option<Box<Vec<Box<Trivia>>>>),
diff --git a/src/parser/trivias.rs b/src/parser/trivias.rs
index ba04ecd..f3e23ba 100644
--- a/src/parser/trivias.rs
+++ b/src/parser/trivias.rs
@@ -1,5 +1,6 @@
 
 #[derive(Clone)]
+#[cfg_attr(dst, derive(Debug))]
 pub enum Trivia {
     WhiteSpace(u32, u32, char),
     Newline(u32, u32, char, char),
-- 
2.43.0


From 4b177c626afc66abed5dd95b4580f68c93e7c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 02/18] fix: a number starting with zero no longer swallows the
 character after the zero

---
 src/parser/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..b1886f6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -741,9 +741,15 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From d8761323cb2b4cea81828d6153f4d57dc0f31c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 03/18] fix: a blank or comment line no longer hides the
 indentation of the line after it

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b1886f6..ba6b530 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From c08c4d9440e8135f82544965a7af15b4eec594e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 04/18] fix: a line that starts with a line continuation is not
 a blank line

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index ba6b530..3f50bcc 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -67,7 +67,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     };
 
                     match self.source_buffer.get_char() {
-                        '#' | '\r' | '\n' | '\\' => {
+                        '#' | '\r' | '\n' => {
                             if col == 0 && self.is_interactive {
                                 match self.source_buffer.get_char() {
                                     '\r' | '\n' => {
-- 
2.43.0


From b2e379beaba39271c1411a4656e18675d8dd2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 05/18] fix: comments and blank lines before an indent or
 dedent are kept as its trivia

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 3f50bcc..a59c61a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From 0a70abef392cfb238beee464205357a6500e34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 06/18] fix: a NUL character inside the text is an error, not
 the end of the text

---
 src/parser/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index a59c61a..767359c 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -172,7 +172,7 @@ impl Tokenizer for PythonCoreTokenizer {
 
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
-                    '\0' => {
+                    '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
@@ -1014,6 +1014,9 @@ impl Tokenizer for PythonCoreTokenizer {
             true => {
                 for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                 while match self.source_buffer.peek_three_chars() {
+                    ( '\0', _ , _  ) if self.source_buffer.get_position() < self.source_buffer.count() => {
+                        return Err(format!("Null character in string at {}!", self.source_buffer.get_position()))
+                    },
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
-- 
2.43.0


From d10d038d4cd34e7d190eda634c729eef7b711ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 07/18] fix: a backslash escapes the next character of a
 string, also a quote

---
 src/parser/tokenizer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 767359c..d49b4e1 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1024,6 +1024,10 @@ impl Tokenizer for PythonCoreTokenizer {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
                     },
+                    ( '\\', b , _  ) if b != '\0' => {
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     ( '\r', _ , _ ) |
                     ( '\n', _ , _  ) => {
                         buffer.push(self.source_buffer.get_char());
@@ -1048,6 +1052,21 @@ impl Tokenizer for PythonCoreTokenizer {
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
+                    '\\' => {
+                        buffer.push(self.source_buffer.get_char());
+                        let _ = self.source_buffer.advance();
+                        match self.source_buffer.peek_three_chars() {
+                            ( '\0', _ , _ ) => { },
+                            ( '\r', '\n', _ ) => {
+                                for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            },
+                            _ => {
+                                buffer.push(self.source_buffer.get_char());
+                                let _ = self.source_buffer.advance();
+                            }
+                        }
+                        true
+                    },
                     _ => {
                         if self.source_buffer.get_char() == quote {
                             buffer.push(self.source_buffer.get_char());
-- 
2.43.0


From ee2a8d09e6c55aa7c99d7f59d8f04261579cf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 08/18] fix: a nested try no longer changes which except
 clauses the enclosing try accepts

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..227f0c0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1495,7 +1495,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1508,6 +1508,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1551,6 +1552,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From b4692c9cb2922b3d35b2225d743263a8a677c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 09/18] fix: an import statement is parsed instead of recursing
 without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 227f0c0..61a3fc1 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From 0a423b745c789ccf6c1f3940e899621711b7b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 10/18] fix: a match statement is reported as an error instead
 of crashing the process

---
 src/parser/patterns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..a4bf08a 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,5 +1,5 @@
 
-use crate::{ ASTNode, PythonCoreParser };
+use crate::{ ASTNode, PythonCoreParser, Tokenizer };
 
 
 pub trait Patterns {
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err(format!("SyntaxError at {}: The match statement is not supported yet!", self.lexer.get_position()))
     }
 }
 
-- 
2.43.0


From 9e5fb8fcf3ca7fd94dbb982ec25527c8c1f29d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 11/18] fix: a dictionary may have more than two entries

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..6e3b5b2 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1176,7 +1176,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 103e556692f13f819cd41fc4139a99f906e0c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 12/18] fix: a slice without a second colon no longer consumes
 the closing bracket

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6e3b5b2..f77c4b1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -960,7 +960,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
-- 
2.43.0


From 633b1eebd7038d65e56aeedcbe44235eb0a9201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 13/18] fix: a decorator consumes the newline that ends it

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 07bd6df062f21926c9e079df4b1b938e77915b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 14/18] fix: async def is parsed as a function

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 61a3fc1..2d4520f 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From a2affb7ba9455a3ce19c8b1e580285e1f6744210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 15/18] fix: a with item with a target is returned as a with
 item

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2d4520f..ce4276b 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1717,7 +1717,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From 9606ed877057cacdd88f6e934cea21492525a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 16/18] fix: targets of for loops and comprehensions stop
 before 'in'

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f77c4b1..4915791 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -999,7 +999,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1022,7 +1022,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From 54cae1d10bc49a8faf43089eb703832aea91b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 17/18] fix: line end trivia carry the line end they cover, not
 always CR LF

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d49b4e1..bc79f7d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -203,7 +203,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -220,7 +220,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From 0276cfe0e1d757bed682b73e2a03d1d5cf1800c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 18/18] fix: a CR LF line end swallowed the character after it

---
 src/parser/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index bc79f7d..281359b 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -183,13 +183,15 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle newline as token or trivia as needed */
                 match self.source_buffer.peek_three_chars() {
                     ( '\r', '\n', _  ) => {
-                        for _i in 1 ..= 3 { let _ = self.source_buffer.advance(); }
+                        for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); }
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
                             trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
                             continue 'outer;
                         }
                         else {
+                            /* The newline that ends the text takes the end mark behind it along */
+                            if self.source_buffer.get_position() >= self.source_buffer.count() { let _ = self.source_buffer.advance(); }
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
-- 
2.43.0

