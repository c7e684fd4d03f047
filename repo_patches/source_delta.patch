From 2d2d45c0600db372d179b0be2b0fc5fae616fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 01/12] fix: key the EBNF suffix caches by symbol, so that a
 token and a rule with the same number do not share a repetition

---
 src/tool/visitor/grammar_visitor.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..4d54680 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,9 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -199,7 +199,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +214,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +235,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +254,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From dc926bef98832f17e59767de90dcfeade98d8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 02/12] fix: report re-defined parser rules and do not skip a
 rule number for them

---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 4d54680..d385f60 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From 85e3916f20801936c7ec561dbb9b0108e8008471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 03/12] fix: place the end marker token at the end of the input

---
 src/tool/templates/target/rust/lexer.tera | 4 ++--
 src/tool/v1/syntaxis_lexer.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..3d923a5 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -67,8 +67,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..26f1ce1 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -90,8 +90,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
-- 
2.43.0


From df20b5f362bf8042618f0f5d92ee1382639518b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 04/12] fix: the v1 parser returns v1 contexts, whose accessors
 know the v1 token types

---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From ad44d74d78013d7517b121437580af61333db87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 05/12] fix: separate rule names by blanks when printing a
 grammar

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..4c14692 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -235,7 +235,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From 71e7fc10ef85bfe0439c8f5495a33a5ceb7468f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 06/12] fix: follow_set of a grammar without any rule does not
 panic

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index 4c14692..3c6b460 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -157,7 +157,7 @@ impl Grammar {
     }
     
     // 将 stop 放入开始符号的follow集合
-    result.get_mut(&0).unwrap().insert(1);
+    if let Some(start) = result.get_mut(&0) { start.insert(1); }
 
     let mut modified = true;
 
-- 
2.43.0


From 2c231cb75b5d60958f6a5e88e445c919436b2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 07/12] fix: spelling of the QUESTION token name

---
 src/tool/syntaxis/syntaxis_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/syntaxis/syntaxis_lexer.rs b/src/tool/syntaxis/syntaxis_lexer.rs
index 00f6db8..de1d428 100644
--- a/src/tool/syntaxis/syntaxis_lexer.rs
+++ b/src/tool/syntaxis/syntaxis_lexer.rs
@@ -72,7 +72,7 @@ impl SyntaxisLexer {
 
     let token_names = vec![
       "_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF",
-      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUEStION", "DOT",
+      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT",
       "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"
     ];
 
-- 
2.43.0


From 24f2b1642ad5c3c194691b603fc8829d8d76e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 08/12] fix: start and stop of a node skip empty nodes at its
 edges

---
 src/runtime/ast/rule_context.rs | 51 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..32254cb 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -34,42 +34,49 @@ impl RuleContext {
 
   pub fn get_rule_index(&self) -> usize { self.rule_index }
 
+  // 没有覆盖任何叶子的子树会被跳过
   pub fn get_first_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
-      ASTContext::Terminal(ctx) => Some(ctx),
-      ASTContext::Rule(ctx) => ctx.get_first_terminal(),
-      ASTContext::Error(_) => None,
+    for child in self.children.iter() {
+      match child {
+        ASTContext::Terminal(ctx) => return Some(ctx),
+        ASTContext::Rule(ctx) => if let Some(_) = ctx.get_start_token() { return ctx.get_first_terminal() },
+        ASTContext::Error(_) => return None,
+      }
     }
-
+    None
   }
 
   pub fn get_last_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children.last().unwrap() {
-      ASTContext::Terminal(ctx) => Some(ctx),
-      ASTContext::Rule(ctx) => ctx.get_last_terminal(),
-      ASTContext::Error(_) => None,
+    for child in self.children.iter().rev() {
+      match child {
+        ASTContext::Terminal(ctx) => return Some(ctx),
+        ASTContext::Rule(ctx) => if let Some(_) = ctx.get_stop_token() { return ctx.get_last_terminal() },
+        ASTContext::Error(_) => return None,
+      }
     }
+    None
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
-      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
-      ASTContext::Rule(ctx) => ctx.get_start_token(),
-      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
+    for child in self.children.iter() {
+      match child {
+        ASTContext::Terminal(ctx) => return Some(ctx.symbol.clone()),
+        ASTContext::Rule(ctx) => if let Some(token) = ctx.get_start_token() { return Some(token) },
+        ASTContext::Error(ctx) => return Some(ctx.symbol.clone()),
+      }
     }
-
+    None
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
-      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
-      ASTContext::Rule(ctx) => ctx.get_stop_token(),
-      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
+    for child in self.children.iter().rev() {
+      match child {
+        ASTContext::Terminal(ctx) => return Some(ctx.symbol.clone()),
+        ASTContext::Rule(ctx) => if let Some(token) = ctx.get_stop_token() { return Some(token) },
+        ASTContext::Error(ctx) => return Some(ctx.symbol.clone()),
+      }
     }
+    None
   }
 
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
-- 
2.43.0


From 16cd2630ae4a86a0e01f5af808ed874148f15848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 09/12] fix: escape everything that would alter the script or
 title of the drawn page

---
 src/tool/gui/ast_drawer.rs      | 4 +++-
 src/tool/templates/gui/ast.html | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..1eabfb0 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,9 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // 结果位于 <script> 中的模板字符串内
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${")
+      .replace("\r", "\\r").replace("\0", "\\x00").replace("<", "\\x3c")
   }
 
   fn dump(ast: &RuleContext) -> String {
diff --git a/src/tool/templates/gui/ast.html b/src/tool/templates/gui/ast.html
index 8e25d35..cb2ceb4 100644
--- a/src/tool/templates/gui/ast.html
+++ b/src/tool/templates/gui/ast.html
@@ -5,7 +5,7 @@
   <meta charset="UTF-8">
   <meta http-equiv="X-UA-Compatible" content="IE=edge">
   <meta name="viewport" content="width=device-width, initial-scale=1.0">
-  <title>{{ name }}</title>
+  <title>{{ name | escape }}</title>
   <style>
     * {
       margin: 0 0;
-- 
2.43.0


From 4f12ccf8fa5181d7c391252c4e76470feb9a1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 10/12] fix: generated lexers compile when the grammar has no
 WHITE_SPACE token

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 3d923a5..1b2ea70 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -129,7 +129,7 @@ impl Lexer for {{name}}Lexer {
   fn scan_all_on_channel_tokens(&mut self, channel: usize) -> Vec<Token> {
     let mut result = Vec::new();
     while let Ok(token) = self.scan() {
-      if token.token_type == {{name}}Lexer::WHITE_SPACE { continue; }
+      {% for token in tokens %}{% if token.token_name == "WHITE_SPACE" %}if token.token_type == {{name}}Lexer::WHITE_SPACE { continue; }{% endif %}{% endfor %}
       if token.channel == channel {
         result.push(token);
       }
-- 
2.43.0


From befc8185d283a164cc2c7957bc7a07854a3623ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:21 +0000
Subject: [PATCH 11/12] fix: the pattern of a string literal matches exactly
 the text the literal denotes

---
 src/tool/visitor/lexer_rule_visitor.rs | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 67d695d..92f310e 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -81,12 +81,7 @@ impl SyntaxisVisitor for StringLiteralVisitor {
       self.cache.insert(name.to_string());
 
 
-      // abc  ab\n
-      let literal = &name[1..name.len()-1]
-        .replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
-        .replace("\\r", "\r").replace("\\'", "\'").replace("+", "\\+")
-        .replace("*", "\\*")
-      ;
+      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);
 
       self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", literal) });
       self.next_token_type += 1;
@@ -96,6 +91,28 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 }
 
 impl StringLiteralVisitor {
+  // 将字符串字面量（不含引号）转换为只匹配其内容的正则表达式
+  fn regular_escape(literal: &str) -> String {
+    let mut result = String::new();
+    let mut chars = literal.chars();
+    while let Some(c) = chars.next() {
+      let c = if c != '\\' { c } else {
+        match chars.next() {
+          Some('a') => '\x07', Some('n') => '\n', Some('r') => '\r', Some('t') => '\t', Some('f') => '\x0c', Some('v') => '\x0b',
+          Some('u') => {
+            // \u{1f600} 或者 \u{0x1f600}
+            let code: String = chars.by_ref().skip(1).take_while(|c| *c != '}').collect();
+            u32::from_str_radix(code.trim_start_matches("0x"), 16).ok().and_then(char::from_u32).unwrap_or(char::REPLACEMENT_CHARACTER)
+          },
+          Some(c) => c,
+          None => c,
+        }
+      };
+      if c.is_control() { result += &format!("\\x{{{:x}}}", c as u32) } else { result += &regex::escape(&c.to_string()) }
+    }
+    result
+  }
+
   pub fn new() -> Self {
     Self {
       data: Vec::new(),
-- 
2.43.0


From 7e7fe0fec4f5ae53c049c444f8288171e3cc20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:42 +0000
Subject: [PATCH 12/12] fix: write the whole page or fail, never a truncated
 one

ASTDrawer::draw called write once, which may write only part of the page
(file size limit, full disk, pipe closed by its reader) and still return Ok.
---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 1eabfb0..04d7d51 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -58,7 +58,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0

