From 46aec971eeec8a89cbb149157f7069dbd8d3bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 01/75] fix: end the csv record at a newline which follows a
 quoted field

---
 csvp/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..2a6ddf1 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,10 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                // the newline ends the record just like it does for an unquoted field
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From 5be55b30dd9b157e8e8a8400d4f71cbe1e62bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 02/75] fix: record exact source positions for csv fields after
 the first line

---
 csvp/src/field_builder.rs | 14 ++++++++++++--
 csvp/src/parser.rs        | 26 ++++++++++++++------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..50d8951 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -9,10 +9,20 @@ pub(crate) struct FieldBuilder {
 
 impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
+        let value = pf.value.trim();
+        // keep the positions in step with the value by dropping those of the trimmed characters
+        let leading_chars = pf.value.chars().take_while(|c| c.is_whitespace()).count();
+        let positions = pf
+            .positions
+            .into_iter()
+            .skip(leading_chars)
+            .take(value.chars().count())
+            .collect();
+
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            value: value.to_string(),
+            positions,
         }
     }
 }
diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 2a6ddf1..92c4c80 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -24,8 +24,10 @@ use std::{iter, str};
 pub struct Parser<'a> {
     config: &'a Config,
     chars: iter::Peekable<str::Chars<'a>>,
-    source_line: usize,
-    source_offset: isize,
+    /// The (line, offset) of the next character to be consumed
+    next_position: (usize, usize),
+    /// The (line, offset) of the last character that was consumed
+    last_position: Option<(usize, usize)>,
 }
 
 #[derive(Debug)]
@@ -54,8 +56,8 @@ enum RecordResult {
 
 impl From<&mut Parser<'_>> for SourcePosition {
     fn from(p: &mut Parser) -> Self {
-        if let Ok(o) = usize::try_from(p.source_offset) {
-            Self::new(o, p.source_line + p.config.lines_above)
+        if let Some((line, offset)) = p.last_position {
+            Self::new(offset, line + p.config.lines_above)
         } else {
             panic!("Attempted to create a SourcePosition before the parser has consumed any characters.")
         }
@@ -71,9 +73,8 @@ impl<'a> Parser<'a> {
         Parser {
             config,
             chars: input.chars().peekable(),
-            source_line: 0,
-            // -1 because we're going to increment as we consume characters
-            source_offset: -1,
+            next_position: (0, 0),
+            last_position: None,
         }
     }
 
@@ -248,12 +249,13 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
-            if is_record_terminator(c) {
-                self.source_line += 1;
-                self.source_offset = 0;
+            let (line, offset) = self.next_position;
+            self.last_position = Some((line, offset));
+            self.next_position = if is_record_terminator(c) {
+                (line + 1, 0)
             } else {
-                self.source_offset += 1;
-            }
+                (line, offset + 1)
+            };
             Some(c)
         } else {
             None
-- 
2.43.0


From b3ecbd1436f3ae7cb708e65acaa0b97c721dc1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 03/75] fix: parse long csv fields without recursing per
 character

---
 csvp/src/parser.rs | 104 +++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 60 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 92c4c80..efc32f6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -154,75 +154,59 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        self.consume_whitespace();
-
-        match self.consume_char() {
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_field(fb)
-            }
-            // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                Ok(self.parse_unquoted_field(fb)?)
-            }
-            None => Ok(FieldResult::Eof),
+        loop {
+            self.consume_whitespace();
+
+            return match self.consume_char() {
+                Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                    continue;
+                }
+                Some('"') => self.parse_quoted_field(fb),
+                Some(c) => {
+                    fb.push(c, &mut *self);
+                    Ok(self.parse_unquoted_field(fb))
+                }
+                None => Ok(FieldResult::Eof),
+            };
         }
     }
 
-    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
+                Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return FieldResult::last(fb),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume
+                        // any trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::some(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From a5f8c947dec7774da6ef4fb589f73a832484e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 04/75] fix: report the expected and received argument counts
 the right way around

---
 src/ast/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..7234062 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -115,8 +115,8 @@ impl Ast {
                                 fn_ast.to_string(),
                                 format!(
                                     "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
+                                    resolved_args.len(),
+                                    args.len()
                                 ),
                             ));
                         }
-- 
2.43.0


From 8b8f04e901be5d6ffbb799e35fbde3e72b8d44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 05/75] fix: substitute all of a function's arguments at once

---
 src/ast/eval.rs | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 7234062..03c1b2a 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -23,7 +23,7 @@ impl Ast {
             last_round_refs = refs.clone();
 
             evaled_ast = evaled_ast
-                .eval_variables(Self::resolve_variables(
+                .eval_variables(&Self::resolve_variables(
                     scope,
                     refs.variables.into_iter(),
                     position,
@@ -76,13 +76,8 @@ impl Ast {
 
     /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
     /// it's given replacement.
-    fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
-
-        evaled_ast
+    fn eval_variables(&self, variable_values: &Variables) -> Self {
+        self.replace_variables(variable_values)
     }
 
     /// Do a depth-first-search on the AST, "calling" the function wherever we see a
@@ -121,13 +116,9 @@ impl Ast {
                             ));
                         }
 
-                        let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
-                        }
-
-                        evaled_body
+                        // all of the parameters have to be replaced at once, otherwise an argument
+                        // which mentions the name of a later parameter would itself be replaced
+                        body.replace_variables(&resolved_args.into_iter().zip(args).collect())
                     }
 
                     // otherwise the function resolved to a non-function.  just treat that as
@@ -177,8 +168,8 @@ impl Ast {
         })
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
+    /// Depth-first-search replacing each `Node::Reference` that has an entry in `replacements`.
+    fn replace_variables(&self, replacements: &Variables) -> Self {
         let inner = (**self).clone();
         Ast::new(match inner {
             Node::FunctionCall { args, name } => {
@@ -186,7 +177,7 @@ impl Ast {
                     // recursively call for each arg to a function
                     args: args
                         .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
+                        .map(|a| a.replace_variables(replacements))
                         .collect(),
                     name,
                 }
@@ -195,7 +186,7 @@ impl Ast {
             Node::Function { args, body, name } => Node::Function {
                 name,
                 args,
-                body: body.replace_variable(var_id, replacement.clone()),
+                body: body.replace_variables(replacements),
             },
 
             Node::InfixFunctionCall {
@@ -203,20 +194,23 @@ impl Ast {
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
+                left: left.replace_variables(replacements),
                 operator,
-                right: right.replace_variable(var_id, replacement.clone()),
+                right: right.replace_variables(replacements),
             },
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+            // a reference matching one of our variables - take the replacement
+            Node::Reference(r) => match replacements.get(&r) {
+                Some(replacement) => replacement.clone().into_inner(),
+                None => Node::Reference(r),
+            },
 
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
+                value: VariableValue::Ast(ast.replace_variables(replacements)),
             },
 
             // otherwise keep the Node unmodified
-- 
2.43.0


From 2145001f105aef1f3e14e9c9ae64f863aa44c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/75] fix: evaluate calls to a function within its own
 arguments

---
 src/ast/eval.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 03c1b2a..854a50a 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -116,6 +116,12 @@ impl Ast {
                             ));
                         }
 
+                        // the arguments might also contain calls to this function
+                        let args = args
+                            .into_iter()
+                            .map(|arg| arg.call_function(fn_id, fn_ast))
+                            .collect::<EvalResult<Vec<_>>>()?;
+
                         // all of the parameters have to be replaced at once, otherwise an argument
                         // which mentions the name of a later parameter would itself be replaced
                         body.replace_variables(&resolved_args.into_iter().zip(args).collect())
-- 
2.43.0


From 9a087f744cdeb2a38aa5419c6f4ce53ae8becdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/75] fix: evaluate function calls in the body of an imported
 function

---
 src/ast/eval.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 854a50a..b3a9cf9 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -169,6 +169,14 @@ impl Ast {
             }
             .into(),
 
+            // and for the body of a function that's being defined
+            Node::Function { args, body, name } => Node::Function {
+                name,
+                args,
+                body: body.call_function(fn_id, fn_ast)?,
+            }
+            .into(),
+
             // otherwise just don't modify it
             _ => inner.clone().into(),
         })
-- 
2.43.0


From 294b8352f7ca2d2aa8a0216db8df32b65260b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 08/75] fix: let function parameters shadow variables of the
 same name

---
 src/ast/eval.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index b3a9cf9..0cbe1c0 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -197,11 +197,20 @@ impl Ast {
                 }
             }
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variables(replacements),
-            },
+            // the parameters of a function shadow any variables with the same name
+            Node::Function { args, body, name } => {
+                let unshadowed = replacements
+                    .iter()
+                    .filter(|(var_id, _)| !args.contains(var_id))
+                    .map(|(var_id, replacement)| (var_id.clone(), replacement.clone()))
+                    .collect();
+
+                Node::Function {
+                    name,
+                    args,
+                    body: body.replace_variables(&unshadowed),
+                }
+            }
 
             Node::InfixFunctionCall {
                 left,
-- 
2.43.0


From f133e0005c603149a72ef3613239f9bfef22b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 09/75] fix: stop evaluating definitions which refer to each
 other

---
 src/ast/eval.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 0cbe1c0..57cd2bd 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -9,18 +9,19 @@ use std::collections;
 
 impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
-    /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
+    /// progress means that `.extract_references()` returns a new, non-empty result each time.
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
+        let mut previous_refs: Vec<AstReferences> = vec![];
 
         loop {
             let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
+            // seeing the same references a second time means that we've stopped making progress,
+            // or that the definitions refer to each other and evaluating them would never end
+            if refs.is_empty() || previous_refs.contains(&refs) {
                 break;
             }
-            last_round_refs = refs.clone();
+            previous_refs.push(refs.clone());
 
             evaled_ast = evaled_ast
                 .eval_variables(&Self::resolve_variables(
-- 
2.43.0


From f53df3a8e577d2b55887558be04c2a39498302e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/75] fix: only lex whole words as the `true`, `false` and
 `use` keywords

---
 src/parser/ast_lexer/token_library.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..1cb4d4e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -54,7 +54,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From 1c894203d222ef53f6e61e4695c87f103f959810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 11/75] fix: lex references and function names which contain a
 `.`

---
 src/parser/ast_lexer/token_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 1cb4d4e..b90121a 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -53,7 +53,7 @@ impl TokenLibrary {
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
-            reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
+            reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From f7ba42f82085b35b6b8e3b22ca6d15e033bc30b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 12/75] fix: lex row ranges such as `1:2` as a reference

---
 src/parser/ast_lexer/mod.rs           | 4 +++-
 src/parser/ast_lexer/token_library.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..963d5d6 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -29,7 +29,7 @@ pub(crate) struct AstLexer<'a> {
 /// (for example 555.55 could be matched by both float and integer (integer can just match the first
 /// part of it)) so it's important float is first. Another example is comments - they have to be
 /// stripped out first
-fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 16] {
+fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 17] {
     [
         &tl.newline,
         &tl.comment,
@@ -42,6 +42,8 @@ fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 16] {
         &tl.open_paren,
         &tl.operator,
         &tl.code_section_eof,
+        // a range of rows (`1:2`) has to come before anything that will match just the first number
+        &tl.row_range,
         // float has to be happen before integer!  it needs to greedy match 1.5, where integer will
         // also match the first part 1, but not the rest
         &tl.float,
diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index b90121a..d19b555 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -25,6 +25,7 @@ pub(crate) struct TokenLibrary {
     pub(crate) open_paren: Matcher,
     pub(crate) operator: Matcher,
     pub(crate) reference: Matcher,
+    pub(crate) row_range: Matcher,
     pub(crate) use_module: Matcher,
     pub(crate) var_assign: Matcher,
 }
@@ -54,6 +55,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
+            row_range: TokenMatcher::new(r"\d+:\$?\d+\b", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From 181a9343be5ee899ce0d353a45c526fa086a877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 13/75] fix: shorten unknown tokens on a character boundary

---
 src/parser/ast_lexer/unknown_token.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
-- 
2.43.0


From 49e96550d5d5f9fcc08013b8c94ff0900a41b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 14/75] fix: consume single-quoted strings which contain
 multi-byte characters

---
 src/parser/cell_lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..8d82748 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
-- 
2.43.0


From 9240b9889a9eec8a8a6ae661780a76e54c8563c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 15/75] fix: find the source position of an offset into a field
 with multi-byte characters

---
 csvp/src/field.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/csvp/src/field.rs b/csvp/src/field.rs
index aee1db1..bf2d7d9 100644
--- a/csvp/src/field.rs
+++ b/csvp/src/field.rs
@@ -16,15 +16,21 @@ pub struct Field {
 
 impl Field {
     /// When a cell spans multiple lines, the newlines are removed and the content of the cell if
-    /// flattened as if they weren't there.  Given an offset into the cell in this format, find the
-    /// position of the original location in source.
+    /// flattened as if they weren't there.  Given a (byte) offset into the cell in this format, find
+    /// the position of the original location in source.
     #[must_use]
     pub fn position_for_offset(&self, offset: Offset) -> Option<SourcePosition> {
-        if offset >= self.positions.len() {
-            None
-        } else {
-            Some(self.positions[offset])
+        if offset >= self.value.len() {
+            return None;
         }
+
+        // there is a position per character, rather than per byte
+        let characters = self
+            .value
+            .char_indices()
+            .take_while(|(i, _)| *i <= offset)
+            .count();
+        self.positions.get(characters - 1).copied()
     }
 
     #[must_use]
-- 
2.43.0


From 942143b4648b8bd59633ac0a8dc3945ee997648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 16/75] fix: reject RGB colors which contain non-ASCII
 characters

---
 src/rgb/try_from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From 023f856e6a6155d3b093745274da626ccb6b855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 17/75] fix: measure leading whitespace in bytes when matching
 tokens

---
 src/parser/token_matcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
-- 
2.43.0


From 75bf0720ec1ec5f62486ffc1312e480f10e2476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 18/75] fix: lex windows newlines within a formula

---
 src/parser/ast_lexer/token_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index d19b555..e24b33e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -52,7 +52,7 @@ impl TokenLibrary {
             integer: TokenMatcher::new(r"\d+", Token::Integer),
             float: TokenMatcher::new(r"\d+\.\d*", Token::Float),
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
-            newline: TokenMatcher::new(r"\n", Token::Newline),
+            newline: TokenMatcher::new(r"\r?\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
             row_range: TokenMatcher::new(r"\d+:\$?\d+\b", Token::Reference),
-- 
2.43.0


From 93cf9ab3de6a50aade557c661e76a5cf8f48c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 19/75] fix: locate syntax errors in formulas which follow
 options or span lines

---
 src/parser/ast_lexer/mod.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 963d5d6..294c550 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -62,7 +62,11 @@ impl<'a> AstLexer<'a> {
     ) -> ParseResult<AstLexer<'a>> {
         let token_library = TokenLibrary::library();
         let mut line_number = 0;
-        let mut line_offset = 0;
+        // for a field our position is the (byte) offset into it's value, of which `input` is the part
+        // following any cell options.  otherwise it's a line and the characters consumed on it
+        let mut line_offset = field
+            .as_ref()
+            .map_or(0, |f| f.value.len().saturating_sub(input.len()));
 
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
@@ -79,26 +83,38 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    let (leading_whitespace, full_match) =
+                        (&p[..m.len_leading_whitespace], &p[..m.len_full_match]);
+
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (
+                                line_offset
+                                    + if field.is_some() {
+                                        leading_whitespace.len()
+                                    } else {
+                                        leading_whitespace.chars().count()
+                                    },
+                                line_number,
+                            )
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
                     }
 
-                    if token == Token::Newline {
+                    if field.is_some() {
+                        line_offset += full_match.len();
+                    } else if let Some((lines, last_line)) = full_match.rsplit_once('\n') {
                         // move line_offset back to the beginning
-                        line_offset = 0;
+                        line_number += lines.matches('\n').count() + 1;
+                        line_offset = last_line.chars().count();
                     } else {
-                        line_offset += m.len_full_match;
+                        line_offset += full_match.chars().count();
                     }
 
                     // move the input past the match
-- 
2.43.0


From ceec0d3a27d9ab69c352de19d762bb35c1367fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 20/75] fix: locate unknown tokens rather than the whitespace
 before them

---
 src/parser/ast_lexer/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 294c550..789cc37 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -131,9 +131,16 @@ impl<'a> AstLexer<'a> {
 
             if !matched {
                 // we did a round of all the tokens and didn't match any of them - invalid syntax
+                let bad_input = p.trim_start();
+                let whitespace = &p[..p.len() - bad_input.len()];
+                let len_whitespace = if field.is_some() {
+                    whitespace.len()
+                } else {
+                    whitespace.chars().count()
+                };
                 return Err(UnknownToken {
-                    bad_input: p.to_string(),
-                    position: (line_offset, line_number).into(),
+                    bad_input: bad_input.to_string(),
+                    position: (line_offset + len_whitespace, line_number).into(),
                     field,
                     source_code,
                 }
-- 
2.43.0


From bfa10a3a2ddc224ef1e8d42499a3c93f8c359308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 21/75] fix: allow a module to be required more than once

---
 src/module_loader/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..063c1d2 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -101,13 +101,13 @@ impl ModuleLoader {
                     .into_inner()?,
             ))
         } else {
-            let mut loaded = self.loaded.write()?;
+            let loaded = self.loaded.read()?;
             let mut main_module = self.main_module;
 
             for req_path in &main_module.required_modules {
                 main_module
                     .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
+                    .merge(&loaded.get(req_path).unwrap().scope);
             }
 
             Ok(main_module)
-- 
2.43.0


From b27383588cc2a5fa50dc1602cb26ffdeee7b60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 22/75] fix: report a transitive dependency which fails to load

---
 src/module_loader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 063c1d2..ef9a870 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -83,7 +83,10 @@ impl ModuleLoader {
             }
         }
 
-        module_loader.eval_dependencies()?;
+        // if anything failed to load there's nothing to evaluate
+        if !module_loader.has_failures() {
+            module_loader.eval_dependencies()?;
+        }
 
         let mut main = module_loader.merge_direct_dependencies()?;
         main.is_dirty = were_any_deps_dirty;
-- 
2.43.0


From aabfb949588bd335b65dde1a1fb7cd43ad2563ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 23/75] fix: load a dependency from source when its cached
 object is stale

---
 src/module/mod.rs        | 27 ++----------
 src/module_loader/mod.rs | 90 ++--------------------------------------
 2 files changed, 7 insertions(+), 110 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..54ffc29 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -66,17 +66,6 @@ impl Module {
         })
     }
 
-    fn load_from_object_code<P: AsRef<path::Path>>(
-        module_path: ModulePath,
-        relative_to: &ModulePath,
-        loader_root: P,
-    ) -> Option<Self> {
-        let filename = loader_root
-            .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
-    }
-
     fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
         filename.set_extension("csvpo");
 
@@ -167,18 +156,10 @@ impl Module {
         relative_to: &ModulePath,
         loader_root: P,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) =
-            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
-        {
-            loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
-        }
+        let filename = loader_root
+            .as_ref()
+            .join(module_path.clone().filename_relative_to(relative_to));
+        Self::load_from_cache_from_filename(module_path, filename)
     }
 
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index ef9a870..aea0796 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -28,7 +28,6 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
@@ -64,33 +63,17 @@ impl ModuleLoader {
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
-        }
+
+        module_loader.load(&module_loader.main_module)?;
 
         // if anything failed to load there's nothing to evaluate
         if !module_loader.has_failures() {
             module_loader.eval_dependencies()?;
         }
 
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+        module_loader.merge_direct_dependencies()
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
@@ -160,73 +143,6 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
-
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
-
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
-            }
-        }
-
-        dirty_nodes
-    }
-
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
-
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
-            }
-        }
-
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
-    }
-
-    fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
-            if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
-            }
-        }
-
-        Ok(())
-    }
-
     fn eval_dependencies(&mut self) -> Result<()> {
         let dep_graph = self.load_dependency_graph();
         let mut loaded = self.loaded.write()?;
-- 
2.43.0


From 7cc393abe80176637c91bec7117e808983f6d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 24/75] fix: do not cache values from a dependency's own
 dependencies

---
 src/module_loader/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index aea0796..9dc73cc 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -171,6 +171,12 @@ impl ModuleLoader {
                 continue;
             }
 
+            // write the csvpo file before merging anything into the scope, because the scopes of our
+            // dependencies can change without this module changing
+            if self.use_cache {
+                to_resolve.write_object_file()?;
+            }
+
             // let mut local_scope = to_resolve.scope.clone();
             for req_path in to_resolve.required_modules.iter().rev() {
                 let Some(dep_scope) = scopes.get(req_path) else {
@@ -185,11 +191,6 @@ impl ModuleLoader {
             eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
-            // now that we've evaled it that's the last step, write the csvpo file
-            if self.use_cache {
-                to_resolve.write_object_file()?;
-            }
-
             scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
         }
 
-- 
2.43.0


From 57de2ba772a78e714efbd10c9437c631ec9629a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 25/75] fix: recompile a cached main module when its
 dependencies change

---
 src/compiler/mod.rs      | 20 +++++++++++++++++---
 src/module/mod.rs        | 36 +++++++++++++++++++++++++-----------
 src/module_loader/mod.rs | 17 +++++++++++++++++
 3 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..7de6452 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,12 +44,26 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        let main_module = Module::load_from_cache_from_filename(
+            main_module_path.clone(),
+            self.input_filename.clone(),
+        )?;
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
-            ModuleLoader::load_main(main_module, loader_root, self.config.use_cache)?;
+            ModuleLoader::load_main(main_module, loader_root.clone(), self.config.use_cache)?;
+
+        if main_module.is_dirty {
+            info!("Dependencies have changed since main was cached");
+            main_module = ModuleLoader::load_main(
+                Module::load_from_source_from_filename(
+                    main_module_path,
+                    self.input_filename.clone(),
+                )?,
+                loader_root,
+                self.config.use_cache,
+            )?;
+        }
 
         if main_module.needs_eval {
             info!("Compiling main module");
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 54ffc29..c939e59 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -15,7 +15,7 @@ use crate::{
 };
 use log::{debug, error, info, warn};
 use rayon::prelude::*;
-use std::{cmp, fs, path};
+use std::{cmp, fs, path, time};
 
 mod display;
 
@@ -184,34 +184,48 @@ impl Module {
         Ok(())
     }
 
-    /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
-    /// the original source code could possibly have any updates that we don't have.  In other
-    /// words does the source code have changes since this was compiled?
+    /// Has the source code of `dependency` been modified since we wrote `self`'s object code?
     ///
     /// # Errors
     ///
-    /// * `Error::SourceCodeError` - if unable to stat the source code file
+    /// * `Error::SourceCodeError` - if unable to stat the dependency's source code file
     /// * `Error::SourceCodeError` - if unable to stat the cached object code file
-    pub fn check_if_is_dirty(&mut self) -> Result<()> {
+    pub(crate) fn is_older_than(&self, dependency: &Self) -> Result<bool> {
+        Ok(dependency.source_modified()? > self.object_code_modified()?)
+    }
+
+    fn object_code_modified(&self) -> Result<time::SystemTime> {
         let object_code_filename = self.source_code.object_code_filename();
 
-        let obj_file_modified = fs::metadata(&object_code_filename)
+        fs::metadata(&object_code_filename)
             .and_then(|s| s.modified())
             .map_err(|e| Error::SourceCodeError {
                 filename: object_code_filename,
                 message: format!("Unable to stat object code: {e}"),
-            })?;
+            })
+    }
 
-        let source_file_modified = fs::metadata(&self.source_code.filename)
+    fn source_modified(&self) -> Result<time::SystemTime> {
+        fs::metadata(&self.source_code.filename)
             .and_then(|s| s.modified())
             .map_err(|e| Error::SourceCodeError {
                 filename: self.source_code.filename.clone(),
                 message: format!("Unable to stat source code: {e}"),
-            })?;
+            })
+    }
 
+    /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
+    /// the original source code could possibly have any updates that we don't have.  In other
+    /// words does the source code have changes since this was compiled?
+    ///
+    /// # Errors
+    ///
+    /// * `Error::SourceCodeError` - if unable to stat the source code file
+    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
+    pub fn check_if_is_dirty(&mut self) -> Result<()> {
         // is the object code more recent than the source? (i.e., no changes since it was last
         // written)
-        if source_file_modified > obj_file_modified {
+        if self.source_modified()? > self.object_code_modified()? {
             self.is_dirty = true;
             self.needs_eval = true;
             return Ok(());
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 9dc73cc..9e956c0 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -73,9 +73,26 @@ impl ModuleLoader {
             module_loader.eval_dependencies()?;
         }
 
+        module_loader.check_if_main_is_dirty()?;
         module_loader.merge_direct_dependencies()
     }
 
+    /// If main came from the cache it was already evaluated using it's dependencies, so it needs to
+    /// be recompiled if any of them (including indirect ones) have changed since.
+    fn check_if_main_is_dirty(&mut self) -> Result<()> {
+        if self.main_module.needs_eval {
+            return Ok(());
+        }
+
+        for dependency in self.loaded.read()?.values() {
+            if self.main_module.is_older_than(dependency)? {
+                self.main_module.is_dirty = true;
+            }
+        }
+
+        Ok(())
+    }
+
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
     /// requires Module B which in turn requires Module C, we will only get vars & functions from
     /// Module B, not from Module C (or any other indirect dependencies)
-- 
2.43.0


From c9bf99e437d5cc07a6b0af6b56a0bfe9b1042792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 26/75] fix: do not load a dependency from the object code of a
 main module

---
 src/module/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index c939e59..0d5849d 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -159,7 +159,16 @@ impl Module {
         let filename = loader_root
             .as_ref()
             .join(module_path.clone().filename_relative_to(relative_to));
-        Self::load_from_cache_from_filename(module_path, filename)
+        let loaded_module =
+            Self::load_from_cache_from_filename(module_path.clone(), filename.clone())?;
+
+        // it was cached when it was compiled as a main module, so it's scope also has everything
+        // that was in scope there
+        if !loaded_module.needs_eval {
+            return Self::load_from_source_from_filename(module_path, filename);
+        }
+
+        Ok(loaded_module)
     }
 
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
-- 
2.43.0


From d499ea5a2a2b18775e66832ed6fc65277a7665ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 27/75] fix: only use a cached main module if caching is
 enabled and there are no key/values

---
 src/compiler/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 7de6452..fa556c1 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,10 +44,20 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module = Module::load_from_cache_from_filename(
-            main_module_path.clone(),
-            self.input_filename.clone(),
-        )?;
+        // the object code doesn't say which key/values it was compiled with
+        let use_cached_main = self.config.use_cache && self.config.key_values.is_empty();
+
+        let main_module = if use_cached_main {
+            Module::load_from_cache_from_filename(
+                main_module_path.clone(),
+                self.input_filename.clone(),
+            )?
+        } else {
+            Module::load_from_source_from_filename(
+                main_module_path.clone(),
+                self.input_filename.clone(),
+            )?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
@@ -70,7 +80,7 @@ impl Compiler {
             main_module = self.eval(main_module)?;
             main_module.needs_eval = false;
 
-            if self.config.use_cache {
+            if use_cached_main {
                 debug!(
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
-- 
2.43.0


From b7eff5aded6debaa7ba06da762f604bc12628098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 28/75] fix: recompile object code from an older version rather
 than from a newer one

---
 src/module/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 0d5849d..99211b1 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -259,8 +259,8 @@ impl Module {
         // if the version is less than ours, don't use it and recompile instead.  otherwise we can
         // trust that it's ok to use
         self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
+            cmp::Ordering::Equal | cmp::Ordering::Less => false,
+            cmp::Ordering::Greater => true,
         };
 
         Ok(())
-- 
2.43.0


From ec91af1fa5480a41afa05bbf2a5afd95dccaa90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 29/75] fix: use the filename that a cached module was loaded
 with

---
 src/module/mod.rs                  | 14 +++++++++++---
 src/source_code/arc_source_code.rs |  8 ++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 99211b1..8dce68b 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -66,8 +66,8 @@ impl Module {
         })
     }
 
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
+    fn load_from_object_code_from_filename(source_filename: path::PathBuf) -> Option<Self> {
+        let filename = source_filename.with_extension("csvpo");
 
         if !filename.exists() {
             return None;
@@ -78,7 +78,7 @@ impl Module {
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok(mut loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -88,6 +88,14 @@ impl Module {
             return None;
         };
 
+        // another source file which only differs by it's extension has the same object code filename
+        if loaded_module.source_code.filename.file_name() != source_filename.file_name() {
+            return None;
+        }
+
+        // the filename it was compiled with might have been relative to another directory
+        loaded_module.source_code = loaded_module.source_code.with_filename(source_filename);
+
         Some(loaded_module)
     }
 
diff --git a/src/source_code/arc_source_code.rs b/src/source_code/arc_source_code.rs
index 50856d6..9a9b0b7 100644
--- a/src/source_code/arc_source_code.rs
+++ b/src/source_code/arc_source_code.rs
@@ -1,5 +1,6 @@
 use super::SourceCode;
 use std::ops;
+use std::path;
 use std::sync;
 
 #[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
@@ -9,6 +10,13 @@ impl ArcSourceCode {
     pub(crate) fn new(inner: SourceCode) -> Self {
         Self(sync::Arc::new(inner))
     }
+
+    pub(crate) fn with_filename<P: Into<path::PathBuf>>(mut self, filename: P) -> Self {
+        if let Some(source_code) = sync::Arc::get_mut(&mut self.0) {
+            source_code.filename = filename.into();
+        }
+        self
+    }
 }
 
 impl ops::Deref for ArcSourceCode {
-- 
2.43.0


From acbd26e9c0c0e69bbca44c3b0733916763062fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 30/75] fix: ignore unreadable or corrupted object code

---
 src/module/mod.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 8dce68b..f37c3a3 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -73,12 +73,13 @@ impl Module {
             return None;
         }
 
-        let obj_file_reader = match fs::File::open(&filename) {
-            Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
-        };
+        // deserialize from a slice because it's length limits how much we'll allocate for a string or
+        // list (when reading from a file a corrupted length can be any size)
+        let deserialized = fs::read(&filename)
+            .ok()
+            .and_then(|object_code| bincode::deserialize::<Self>(&object_code).ok());
 
-        let Ok(mut loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
+        let Some(mut loaded_module) = deserialized else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -256,12 +257,9 @@ impl Module {
             )),
         };
 
-        let loaded_version = match semver::Version::parse(&self.compiler_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse loaded module version `{}`: {e}",
-                &self.compiler_version
-            )),
+        let Ok(loaded_version) = semver::Version::parse(&self.compiler_version) else {
+            self.is_dirty = true;
+            return Ok(());
         };
 
         // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-- 
2.43.0


From 41df707cb67074b311aaaa8ecebe72b1470c1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 31/75] fix: keep existing csv values outside of the compiled
 spreadsheet when --safe

---
 src/target/csv/compilation_target.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..be5cc55 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -10,7 +10,19 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
+        let rows = &module.spreadsheet.rows;
+        let mut num_rows = rows.len();
+        let mut widest_row = module.spreadsheet.widest_row();
+
+        if !self.compiler.config.overwrite_values {
+            // keep the existing values which are outside of what was compiled
+            num_rows = num_rows.max(existing_values.cells.len());
+            widest_row = existing_values
+                .cells
+                .iter()
+                .map(std::vec::Vec::len)
+                .fold(widest_row, std::cmp::max);
+        }
 
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
@@ -20,13 +32,13 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
+        for index in 0..num_rows {
             let mut output_row: Vec<String> = merge_rows(
                 existing_values
                     .cells
                     .get(index)
                     .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+                rows.get(index).map_or(&[], |row| &row.cells),
                 &self.compiler.config,
             )
             .iter()
-- 
2.43.0


From c24fdde6cee21c4e04df3765fb2eb3ebc6044c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 32/75] fix: clear the existing Excel value when overwriting it
 with an empty cell

---
 src/target/excel/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..8e5fb92 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -131,6 +131,8 @@ impl<'a> Excel<'a> {
             };
         } else if !cell.parsed_value.is_empty() {
             existing_cell.set_value_string(cell.parsed_value.clone());
+        } else {
+            existing_cell.set_blank();
         }
     }
 
-- 
2.43.0


From ecb9417680277423d88939d7c35664bfd76d2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 33/75] fix: keep the existing Excel validations of other cells

---
 src/target/excel/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 8e5fb92..dafe1cb 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -82,17 +82,32 @@ impl<'a> Excel<'a> {
     }
 
     fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
         if cell_validations.is_empty() {
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        let new_validations: Vec<u::DataValidation> = cell_validations
+            .into_iter()
+            .map(std::convert::Into::into)
+            .collect();
+
+        // keep the existing validations except for on the cells we're setting them on
+        let mut validations = worksheet
+            .get_data_validations()
+            .cloned()
+            .unwrap_or_default();
+        validations
+            .get_data_validation_list_mut()
+            .retain(|existing| {
+                let sqref = existing.get_sequence_of_references().get_sqref();
+                new_validations
+                    .iter()
+                    .all(|new| new.get_sequence_of_references().get_sqref() != sqref)
+            });
+
+        for validation in new_validations {
+            validations.add_data_validation_list(validation);
+        }
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From 1303b509af493e5fe318ad7e134371c12b7cec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 34/75] fix: replace the existing Excel comment on a cell
 rather than adding another

---
 src/target/excel/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index dafe1cb..2127e27 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -122,6 +122,11 @@ impl<'a> Excel<'a> {
         coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
         coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
 
+        // replace the existing comment if there is one
+        let coordinate = comment.get_coordinate().clone();
+        worksheet
+            .get_comments_mut()
+            .retain(|existing| existing.get_coordinate() != &coordinate);
         worksheet.add_comments(comment);
     }
 
-- 
2.43.0


From 2be433603146fe0e4e8dbbb8a1f89441fcfb1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 35/75] fix: put Excel comments on the cell with the note

---
 src/target/excel/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 2127e27..bbde6c4 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -119,8 +119,12 @@ impl<'a> Excel<'a> {
         rt.set_text(note);
 
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        // the coordinates of comments start at 1 while ours start at 0
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord
+            .set_row_num(u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"));
 
         // replace the existing comment if there is one
         let coordinate = comment.get_coordinate().clone();
-- 
2.43.0


From 05d20a2b335b76dfa8ccc9fb7edd1b72e826ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 36/75] fix: write the border color to Excel

---
 src/target/excel/excel_cell.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..a4fbdb5 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(c) = self.0.border_color.clone() {
+            border_style.set_color(c.into());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From a7b0ee66bf18b77f5fc8d6f2cbc5986d7bdf4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 37/75] fix: write each side's border to Google Sheets for
 `border=all`

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..3a2b4f7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.side_has_border(side) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From efa622565d4df67f6a63db5aa5f2875f868c4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 38/75] fix: use the Google Sheets name for center horizontal
 alignment

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 3a2b4f7..394b10a 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
-- 
2.43.0


From 7f1a0382f23fd5935eead356a446516caca5f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 39/75] fix: use the Google Sheets name for the overflow wrap
 strategy

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 394b10a..5fd6c62 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 95be2f4fe58457904b6566d8802eb60d6222497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 40/75] fix: start each Google Sheets request at the row after
 the previous one

---
 .../google_sheets/batch_update_builder.rs     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..6866a24 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -7,6 +7,8 @@ use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
 
+const ROWS_PER_REQUEST: usize = 1000;
+
 pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
@@ -37,11 +39,12 @@ impl<'a> BatchUpdateBuilder<'a> {
     fn batch_update_cells_requests(&self) -> Vec<api::Request> {
         let all_rows = self.row_data();
 
-        // split the rows into requests with 1000 per
+        // split the rows into requests, each starting at the row after the previous one
         all_rows
-            .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .chunks(ROWS_PER_REQUEST)
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(rows, i * ROWS_PER_REQUEST)),
                 ..Default::default()
             })
             .collect()
@@ -91,7 +94,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        rows: &[api::RowData],
+        first_row: usize,
+    ) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
@@ -101,7 +108,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From a04f28e1927028ff707b3521729957ed9b3e0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 41/75] fix: offset Google Sheets columns by the x offset and
 rows by the y offset

---
 src/target/google_sheets/batch_update_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 6866a24..34351f7 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -104,11 +104,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.0)
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
+                    i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From 08bb4b9ed57549f8cd8e416a50851312418c02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 42/75] fix: use the Google Sheets API names of data validation
 conditions

---
 .../google_sheets/google_sheets_cell.rs       | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 5fd6c62..37086b9 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -82,17 +82,18 @@ impl<'a> GoogleSheetsCell<'a> {
         }
     }
 
+    /// <https://developers.google.com/sheets/api/reference/rest/v4/spreadsheets/other#ConditionType>
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
+                DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
                 DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
                     validate_date!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
                     validate_date!("DATE_NOT_BETWEEN", da, db)
                 }
@@ -104,34 +105,34 @@ impl<'a> GoogleSheetsCell<'a> {
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +142,7 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From 66aa84b66733f70a130f396b205f5dbbdd745210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 43/75] fix: do not send dates as relative dates in Google
 Sheets validations

---
 src/target/google_sheets/google_sheets_cell.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 37086b9..3115d3c 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -15,13 +15,14 @@ use google_sheets4::api;
 pub(super) struct GoogleSheetsCell<'a>(pub(super) &'a Cell);
 
 macro_rules! build_boolean_condition {
-    ($gs_name:literal, $conditional_value_attr:ident $(, $dv:ident)*) => {
+    ($gs_name:literal $(, $dv:ident)*) => {
         api::BooleanCondition {
             type_: Some($gs_name.to_string()),
             values: Some(vec![
                 $(
+                    // NOTE: `relative_date` is not supported in data validations
                     api::ConditionValue {
-                        $conditional_value_attr: Some($dv.to_string()),
+                        user_entered_value: Some($dv.to_string()),
                         ..Default::default()
                     },
                 )*
@@ -32,13 +33,13 @@ macro_rules! build_boolean_condition {
 
 macro_rules! validate_date {
     ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
+        build_boolean_condition!($gs_name $(,$dv)*)
     };
 }
 
 macro_rules! validate_str {
     ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
+        build_boolean_condition!($gs_name $(,$dv)*)
     };
 }
 
-- 
2.43.0


From 024499055347ccca2f1a5c4185e110b7a7cad102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 44/75] fix: allow `-` and `_` in the Google Sheets id

---
 src/output/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..c9b9cc3 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,14 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        if sheet_id
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+        {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, `-` and `_`.".to_string(),
             ))
         }
     }
-- 
2.43.0


From 8061f96bee51ec2fdc36e35011a1a0954465f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 45/75] fix: keep the timestamp when backing up a filename with
 several dots

---
 src/target/file_backer_upper.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..d2bdc1b 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -49,8 +49,12 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         let timestamp = now.format(time_format);
 
         let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        // NOTE: `set_extension` would replace anything after a `.` in the file stem
+        new_file.push(format!(
+            "{}-{timestamp}.{}",
+            file_stem.to_str().unwrap(),
+            file_extension.to_str().unwrap()
+        ));
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 4054b6206404b86a782c3f0a763e5b54535596e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 46/75] fix: merge with the existing Google Sheets cells at the
 offset

---
 src/target/google_sheets/batch_update_builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 34351f7..ebcb1ba 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -84,7 +84,14 @@ impl<'a> BatchUpdateBuilder<'a> {
             .enumerate()
             .map(|(i, row)| {
                 let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
+                // our first cell is written to the offset, so that's what we're merging with
+                let (x_offset, y_offset) = self.compiler.config.offset;
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(i + y_offset as usize)
+                    .and_then(|existing_row| existing_row.get(x_offset as usize..))
+                    .unwrap_or(&empty_row);
                 let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
-- 
2.43.0


From a17ad86adb2162465be6829853aa51fd576d0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 47/75] hook: expose the Google Sheets request to the
 verification harness (cfg csvpp_verif)

---
 src/lib.rs                      |  9 +++++++++
 src/target/google_sheets/mod.rs | 23 +++++++++++++++++++++++
 src/target/mod.rs               |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6875837..df05a99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![warn(clippy::pedantic)]
 #![deny(warnings)]
+// for `csvpp_verif` which is only set when building the verification harness
+#![allow(unexpected_cfgs)]
 
 mod ast;
 mod cell;
@@ -48,6 +50,13 @@ use log::{error, info, warn};
 #[cfg(test)]
 mod test_utils;
 
+/// Entry points for the verification harness (built with `--cfg csvpp_verif`)
+#[cfg(csvpp_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::target::google_sheets_batch_update;
+}
+
 pub(crate) fn compiler_error<S: std::fmt::Display>(message: S) -> ! {
     error!(
         "csv++ ran into an unexpected error while compiling.
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..3b1f7ed 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -190,6 +190,29 @@ impl<'a> GoogleSheets<'a> {
     }
 }
 
+/// The JSON of the request that would be sent to the Google Sheets API, given the JSON of the rows of
+/// cells which are already there (where `null` means that there is no existing cell).
+#[cfg(csvpp_verif)]
+pub fn google_sheets_batch_update(
+    compiler: &Compiler,
+    module: &Module,
+    existing_cells: &str,
+) -> std::result::Result<String, serde_json::Error> {
+    let rows: Vec<Vec<Option<SheetsValue>>> = serde_json::from_str(existing_cells)?;
+    let existing_values = ExistingValues {
+        cells: rows
+            .into_iter()
+            .map(|row| {
+                row.into_iter()
+                    .map(|cell| cell.map_or(ExistingCell::Empty, ExistingCell::Value))
+                    .collect()
+            })
+            .collect(),
+    };
+
+    serde_json::to_string(&BatchUpdateBuilder::new(compiler, module, &existing_values).build())
+}
+
 #[cfg(test)]
 mod tests {
     /* TODO: need to
diff --git a/src/target/mod.rs b/src/target/mod.rs
index da82ea2..ae1c5b3 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -9,6 +9,8 @@ mod open_document;
 
 pub(crate) use crate::target::csv::Csv;
 pub(crate) use excel::Excel;
+#[cfg(csvpp_verif)]
+pub use google_sheets::google_sheets_batch_update;
 pub(crate) use google_sheets::GoogleSheets;
 pub(crate) use open_document::OpenDocument;
 
-- 
2.43.0


From e0d7af9740c9624c2f90b95cc5d99cd9288c8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 48/75] fix: combine the signs of a number with several prefix
 operators

---
 src/parser/ast_parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..3a9ec30 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -126,22 +126,33 @@ impl<'a> AstParser<'a> {
                     NumberSign::Negative
                 };
 
+                // the number might already have a sign, i.e. `--1` or `-(-1)`
+                let combine_signs = |number_sign| match (sign, number_sign) {
+                    (NumberSign::Negative, Some(NumberSign::Negative)) => NumberSign::Positive,
+                    (NumberSign::Positive, Some(NumberSign::Negative)) => NumberSign::Negative,
+                    (sign, _) => sign,
+                };
+
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        value,
+                        sign: number_sign,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(combine_signs(number_sign)),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        value,
+                        sign: number_sign,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(combine_signs(number_sign)),
                         value,
                     }
                     .into(),
-- 
2.43.0


From c49c8a4dbc7bab7401511a42b9ca72c0719e80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 49/75] fix: do not ignore what follows an unmatched `,` or `)`
 in a formula

---
 src/parser/ast_parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 3a9ec30..e7d0361 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,16 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let parser = AstParser::new(&lexer, single_expr);
+        let ast = parser.expr_bp(0)?;
+
+        // an expression ends at a comma or close paren, but there's nothing for them to belong to
+        let end = lexer.next();
+        match end.token {
+            Token::Eof => Ok(ast),
+            t => Err(end.into_parse_error(format!("Unexpected token ({t:?})"))),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From ff18e62ac2ed9a40a6b5e104bfb0758b004d231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 50/75] fix: keep the empty arguments of a function call

---
 src/parser/ast_parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index e7d0361..f80d69d 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -217,18 +217,31 @@ impl<'a> AstParser<'a> {
                     };
 
                     let mut args = vec![];
+                    // arguments can be left empty, i.e. `IF(A1,,2)`
+                    let empty_arg = || Node::Reference(String::new()).into();
+                    let mut expecting_arg = false;
 
                     // consume arguments (expressions) until we see a close paren
                     loop {
                         match self.lexer.peek().token {
                             Token::CloseParen => {
                                 self.lexer.next();
+                                if expecting_arg {
+                                    args.push(empty_arg());
+                                }
                                 break;
                             }
                             Token::Comma => {
                                 self.lexer.next();
+                                if expecting_arg || args.is_empty() {
+                                    args.push(empty_arg());
+                                }
+                                expecting_arg = true;
+                            }
+                            _ => {
+                                args.push(self.expr_bp(0)?);
+                                expecting_arg = false;
                             }
-                            _ => args.push(self.expr_bp(0)?),
                         }
                     }
 
-- 
2.43.0


From 3fd5e91f3a41fc44ce2dd7bb06e93f60f6d0a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 51/75] fix: call every function in the same pass

---
 src/ast/eval.rs | 49 +++++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 57cd2bd..2adcb69 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -3,7 +3,7 @@
 //! The main functions for evaluating a function or variable.
 //!
 use super::references::{AstReferences, ReferencesIter};
-use super::{Ast, Node, VariableValue, Variables};
+use super::{Ast, Functions, Node, VariableValue, Variables};
 use crate::{EvalError, EvalResult, Scope};
 use std::collections;
 
@@ -29,7 +29,7 @@ impl Ast {
                     refs.variables.into_iter(),
                     position,
                 ))
-                .eval_functions(refs.functions.into_iter(), scope)?;
+                .call_functions(&scope.functions)?;
         }
 
         Ok(evaled_ast)
@@ -57,24 +57,6 @@ impl Ast {
         resolved_vars
     }
 
-    /// Evaluate the given `functions` calling `resolve_fn` upon each occurence to render a
-    /// replacement.  Unlike variable resolution, we can't produce the values up front because the
-    /// resolution function requires being called with the `arguments` at the call site.
-    fn eval_functions(self, fns_to_resolve: ReferencesIter, scope: &Scope) -> EvalResult<Self> {
-        let mut evaled_ast = self;
-        for fn_name in fns_to_resolve {
-            if let Some(fn_ast) = scope.functions.get(&fn_name) {
-                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
-            } else {
-                // TODO: log a warning that we tried to resolve an unknown function
-                // this is one of those things that should never happen (since `fns_to_resolve`
-                // is only comprised of functions we know about)
-            }
-        }
-
-        Ok(evaled_ast)
-    }
-
     /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
     /// it's given replacement.
     fn eval_variables(&self, variable_values: &Variables) -> Self {
@@ -82,12 +64,15 @@ impl Ast {
     }
 
     /// Do a depth-first-search on the AST, "calling" the function wherever we see a
-    /// `Node::FunctionCall` with the matching name.  Calling a function can result in two main
-    /// paths:
-    fn call_function(self, fn_id: &str, fn_ast: &Self) -> EvalResult<Self> {
+    /// `Node::FunctionCall` with the name of one.  They all have to be called in the same pass,
+    /// otherwise the order would decide if an invalid call was reported or had already been
+    /// discarded by the function that it was an argument of.  Calling a function can result in two
+    /// main paths:
+    fn call_functions(self, functions: &Functions) -> EvalResult<Self> {
         let inner = self.into_inner();
         Ok(match inner {
-            Node::FunctionCall { args, name } if name == fn_id => {
+            Node::FunctionCall { args, name } if functions.contains_key(&name) => {
+                let fn_ast = &functions[&name];
                 match (*fn_ast).clone().into_inner() {
                     // when we get a `Node::Function`, take the body and replace each of it's
                     // arguments in the body.  For example:
@@ -117,10 +102,10 @@ impl Ast {
                             ));
                         }
 
-                        // the arguments might also contain calls to this function
+                        // the arguments might also contain function calls
                         let args = args
                             .into_iter()
-                            .map(|arg| arg.call_function(fn_id, fn_ast))
+                            .map(|arg| arg.call_functions(functions))
                             .collect::<EvalResult<Vec<_>>>()?;
 
                         // all of the parameters have to be replaced at once, otherwise an argument
@@ -134,12 +119,12 @@ impl Ast {
                 }
             }
 
-            // it's a function call but not the one we're looking for - recurse through the
+            // it's a function call but not one that we know about - recurse through the
             // arguments
             Node::FunctionCall { args, name } => {
                 let mut called_args = Vec::with_capacity(args.len());
                 for arg in args {
-                    called_args.push(arg.call_function(fn_id, fn_ast)?);
+                    called_args.push(arg.call_functions(functions)?);
                 }
 
                 Node::FunctionCall {
@@ -155,9 +140,9 @@ impl Ast {
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.call_function(fn_id, fn_ast)?,
+                left: left.call_functions(functions)?,
                 operator,
-                right: right.call_function(fn_id, fn_ast)?,
+                right: right.call_functions(functions)?,
             }
             .into(),
 
@@ -166,7 +151,7 @@ impl Ast {
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.call_function(fn_id, fn_ast)?),
+                value: VariableValue::Ast(ast.call_functions(functions)?),
             }
             .into(),
 
@@ -174,7 +159,7 @@ impl Ast {
             Node::Function { args, body, name } => Node::Function {
                 name,
                 args,
-                body: body.call_function(fn_id, fn_ast)?,
+                body: body.call_functions(functions)?,
             }
             .into(),
 
-- 
2.43.0


From 3d33d207b2fd74fbf2236a43bf7ffe15bc597433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 52/75] fix: end an infinite fill before the rows which follow
 it

---
 src/spreadsheet/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..73c6df8 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -39,8 +39,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                let new_fill = Fill {
+                    // an infinite fill ends before any rows that follow it
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From 71d7ff340d5d0d5e95cea843fe62accb6eba192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 53/75] fix: allow fills to go past row 1000

---
 src/cell_options/fill/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
-- 
2.43.0


From 3da2b443fa172c890a27270a31bbf47d331c2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 54/75] fix: resolve the dependencies of a module required
 twice before it

---
 src/module_loader/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 9e956c0..ec1c310 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -130,8 +130,10 @@ impl ModuleLoader {
 
         // load all of the direct dependencies
         for p in &self.main_module.required_modules {
-            let direct_dep_node = dep_graph.add_node(p.clone());
-            loaded_nodes.insert(p, direct_dep_node);
+            // it might be required more than once (or be main itself)
+            let direct_dep_node = *loaded_nodes
+                .entry(p)
+                .or_insert_with(|| dep_graph.add_node(p.clone()));
             dep_graph.add_edge(main_node, direct_dep_node, ());
         }
 
-- 
2.43.0


From a441bdc08efc04bc586ff1da28b24504881a9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 55/75] fix: evaluate a module's definitions independently of
 their order

---
 src/module_loader/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index ec1c310..025a2b4 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,10 +34,12 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // each is evaluated with the others as they were defined, so that the order doesn't matter
+        let unevaluated = $scope.clone();
+        for (name, ast) in unevaluated.$functions_or_variables.clone().into_iter() {
             $scope.$functions_or_variables.insert(
                 name,
-                ast.eval(&$scope, None)
+                ast.eval(&unevaluated, None)
                     .map_err(|e| $source_code.eval_error(e, None))?,
             );
         }
-- 
2.43.0


From 37823972af024762ce3e564ecb95cb022a9f0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 56/75] fix: do not export what was merged under the name of
 another kind of definition

---
 src/scope/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scope/mod.rs b/src/scope/mod.rs
index 0a994e9..895beab 100644
--- a/src/scope/mod.rs
+++ b/src/scope/mod.rs
@@ -8,6 +8,13 @@ pub struct Scope {
     pub(crate) functions: Functions,
     pub(crate) variables: Variables,
     pub(crate) exports: collections::HashSet<String>,
+
+    /// what came from merging other scopes, which isn't exported even if there's an export of the
+    /// other kind with the same name
+    #[serde(skip)]
+    merged_functions: collections::HashSet<String>,
+    #[serde(skip)]
+    merged_variables: collections::HashSet<String>,
 }
 
 impl Scope {
@@ -43,12 +50,14 @@ impl Scope {
     pub(crate) fn merge(&mut self, other: &Self) {
         for e in &other.exports {
             if let Some(f) = other.functions.get(e) {
-                if !self.functions.contains_key(e) {
+                if !self.functions.contains_key(e) && !other.merged_functions.contains(e) {
+                    self.merged_functions.insert(e.clone());
                     self.functions.insert(e.clone(), f.clone());
                 }
             }
             if let Some(v) = other.variables.get(e) {
-                if !self.variables.contains_key(e) {
+                if !self.variables.contains_key(e) && !other.merged_variables.contains(e) {
+                    self.merged_variables.insert(e.clone());
                     self.variables.insert(e.clone(), v.clone());
                 }
             }
-- 
2.43.0


From bcbca0f8cac333e412560906fd48f69a73431e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 57/75] fix: use Excel's serial numbers for dates in
 validations

---
 src/date_time/mod.rs                | 11 +++++++++++
 src/target/excel/cell_validation.rs |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/date_time/mod.rs b/src/date_time/mod.rs
index 51f8e4f..fb0291c 100644
--- a/src/date_time/mod.rs
+++ b/src/date_time/mod.rs
@@ -26,6 +26,17 @@ impl DateTime {
             _ => unimplemented!(),
         }
     }
+
+    /// The serial number that Excel has for a date. It starts with 1 on January 1, 1900 and counts
+    /// February 29, 1900 (which did not exist)
+    pub(crate) fn excel_serial_number(&self) -> i64 {
+        let days = self.distance_from_epoch();
+        if days < 59 {
+            days + 1
+        } else {
+            days + 2
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 56c7a41..d95332b 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -30,15 +30,15 @@ macro_rules! validation {
 
 macro_rules! date_validation {
     ($v:ident, $op:ident, $formula1:ident, $prompt:expr) => {
-        validation!($v, Date, $op, $formula1.distance_from_epoch(), $prompt)
+        validation!($v, Date, $op, $formula1.excel_serial_number(), $prompt)
     };
     ($v:ident, $op:ident, $formula1:ident, $formula2:ident, $prompt:expr) => {
         validation!(
             $v,
             Date,
             $op,
-            $formula1.distance_from_epoch(),
-            $formula2.distance_from_epoch(),
+            $formula1.excel_serial_number(),
+            $formula2.excel_serial_number(),
             $prompt
         )
     };
-- 
2.43.0


From 2c250d8c522034eabd8042e238260eb86bb94181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 58/75] fix: accept the documented short names of number
 validations

---
 src/parser/cell_parser/validate.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..396b08b 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -45,18 +45,20 @@ impl CellParser<'_, '_> {
             "date_nbtwn" | "date_not_between" => self.validate_date_not_between(),
             "date_gte" | "date_on_or_after" => self.validate_date_on_or_after(),
             "date_lte" | "date_on_or_before" => self.validate_date_on_or_before(),
-            "num_btwn" | "number_between" => self.validate_number_between(),
-            "num_eq" | "number_equal_to" => self.validate_number_equal_to(),
-            "num_gt" | "number_greater_than" => self.validate_number_greater_than(),
-            "num_gte" | "number_greater_than_or_equal_to" => {
+            "num_btwn" | "number_btwn" | "number_between" => self.validate_number_between(),
+            "num_eq" | "number_eq" | "number_equal_to" => self.validate_number_equal_to(),
+            "num_gt" | "number_gt" | "number_greater_than" => self.validate_number_greater_than(),
+            "num_gte" | "number_gte" | "number_greater_than_or_equal_to" => {
                 self.validate_number_greater_than_or_equal_to()
             }
-            "num_lt" | "number_less_than" => self.validate_number_less_than(),
-            "num_lte" | "number_less_than_or_equal_to" => {
+            "num_lt" | "number_lt" | "number_less_than" => self.validate_number_less_than(),
+            "num_lte" | "number_lte" | "number_less_than_or_equal_to" => {
                 self.validate_number_less_than_or_equal_to()
             }
-            "num_nbtwn" | "number_not_between" => self.validate_number_not_between(),
-            "num_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
+            "num_nbtwn" | "number_nbtwn" | "number_not_between" => {
+                self.validate_number_not_between()
+            }
+            "num_neq" | "number_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
             "text_contains" => self.validate_text_contains(),
             "text_does_not_contain" => self.validate_text_does_not_contain(),
             "text_eq" | "text_equal_to" => self.validate_text_equal_to(),
-- 
2.43.0


From 633dc4b9ebfae57a260e179eff85830928149800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 59/75] fix: quote text in the Excel formulas of validations

---
 src/target/excel/cell_validation.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index d95332b..806f4fe 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -44,6 +44,21 @@ macro_rules! date_validation {
     };
 }
 
+/// A string literal of an Excel formula
+fn quote(text: &str) -> String {
+    format!("\"{}\"", text.replace('"', "\"\""))
+}
+
+/// A string literal which `SEARCH` looks for as it is, rather than as a pattern
+fn quote_search(text: &str) -> String {
+    quote(
+        &text
+            .replace('~', "~~")
+            .replace('?', "~?")
+            .replace('*', "~*"),
+    )
+}
+
 // TODO:
 // * optimize this so there isn't a separate data validation for each cell - if a data validation
 //     is placed on a fill, we can specify the range covered by that fill instead of each cell
@@ -169,17 +184,17 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextContains(t) => {
-                let f = format!("=ISNUMBER(SEARCH(\"{t}\", {position}))");
+                let f = format!("=ISNUMBER(SEARCH({}, {position}))", quote_search(&t));
                 custom_validation!(v, Custom, f, format!("Text contains \"{t}\""))
             }
 
             DataValidation::TextDoesNotContain(t) => {
-                let f = format!("=NOT(ISNUMBER(SEARCH(\"{t}\", {position})))");
+                let f = format!("=NOT(ISNUMBER(SEARCH({}, {position})))", quote_search(&t));
                 custom_validation!(v, Custom, f, format!("Text does not contain \"{t}\""))
             }
 
             DataValidation::TextEqualTo(t) => {
-                let f = format!("{position} = \"{t}\"");
+                let f = format!("{position} = {}", quote(&t));
                 custom_validation!(v, Custom, f, format!("Text equal to \"{t}\""))
             }
 
-- 
2.43.0


From eeea6a91cb5ee0b716fd13b8e4002d8ca4be533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 60/75] fix: use functions which Excel has to validate URLs

---
 src/target/excel/cell_validation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 806f4fe..3a82d52 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -205,8 +205,8 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextIsValidUrl => {
-                // TODO
-                let f = format!("=RegExpMatch({position}, \"^http\")");
+                // NOTE: Excel doesn't have a function to match regular expressions
+                let f = format!("=LEFT({position}, 4) = \"http\"");
                 custom_validation!(v, Custom, f, "Text is valid URL")
             }
 
-- 
2.43.0


From d9a8b85ab1046a66baa9c4f2d4a29b0ee660915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 61/75] fix: don't panic on what isn't an A1 reference in a
 range validation

---
 src/parser/cell_parser/validate.rs | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 396b08b..e74dcfb 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -27,6 +27,39 @@ macro_rules! validate {
     };
 }
 
+/// Which of a column and a row does part of a reference have? (`A1`, `$A$1`, `A` or `1`)
+fn column_and_row(part: &str) -> Option<(bool, bool)> {
+    let (column, row) = {
+        let without_abs = part.strip_prefix('$').unwrap_or(part);
+        let row_at = without_abs
+            .find(|ch: char| !ch.is_ascii_alphabetic())
+            .unwrap_or(without_abs.len());
+        without_abs.split_at(row_at)
+    };
+    let row_number = match row.strip_prefix('$') {
+        Some(n) if !column.is_empty() => n,
+        _ => row,
+    };
+
+    let is_row =
+        row.is_empty() || !row_number.is_empty() && row_number.chars().all(|c| c.is_ascii_digit());
+    (column.len() <= 3 && is_row).then_some((!column.is_empty(), !row.is_empty()))
+}
+
+/// Is it a cell (`A1`) or a range (`A1:B2`, `A:B` or `1:2`), which might start with a sheet name?
+fn is_a1_reference(s: &str) -> bool {
+    let (sheet_name, reference) = s.rsplit_once('!').unwrap_or(("", s));
+    let is_valid_reference = match reference.split_once(':') {
+        Some((from, to)) => {
+            let from = column_and_row(from);
+            from.is_some_and(|(column, row)| column || row) && from == column_and_row(to)
+        }
+        None => column_and_row(reference) == Some((true, true)),
+    };
+
+    is_valid_reference && (sheet_name.is_ascii() || !sheet_name.starts_with('\''))
+}
+
 impl CellParser<'_, '_> {
     pub(super) fn validate(&mut self) -> ParseResult<()> {
         let name = self.lexer.take_option_right_side()?;
@@ -260,6 +293,11 @@ impl CellParser<'_, '_> {
     validate!(self, validate_value_in_range, {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
+            // NOTE: `a1::new` can panic on some things which aren't A1 references (`$1`, `A:`)
+            if !is_a1_reference(&a1_match.str_match) {
+                return Err(a1_match.into_parse_error("Expected an A1 reference"));
+            }
+
             DataValidation::ValueInRange(
                 a1::new(&a1_match.str_match).map_err(|e| {
                     a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
-- 
2.43.0


From ef65c40f17a67cb3201720e78357009358280f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 62/75] fix: mark what's wrong in options rather than what's
 before it

---
 src/parser/cell_lexer/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 8d82748..3b3c1f9 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -168,7 +168,7 @@ impl<'a> CellLexer<'a> {
             token,
             str_match: str_match.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.next_offset(),
             source_code: self.source_code.clone(),
         }
     }
@@ -177,7 +177,7 @@ impl<'a> CellLexer<'a> {
         UnknownToken {
             bad_input: self.input.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.next_offset(),
             source_code: self.source_code.clone(),
         }
         .into_parse_error(message)
@@ -330,15 +330,27 @@ impl<'a> CellLexer<'a> {
             Err(self.unknown_string(format!("Expected a {token}")))
         } else {
             self.move_input(matched.len());
-            Ok(self.match_token(token, &matched))
+            Ok(TokenMatch {
+                cell_offset: self.last_read_offset(),
+                ..self.match_token(token, &matched)
+            })
         }
     }
 
     // our parser has the `cell_offset` set to one position ahead of where we last read
-    fn current_cell_offset(&self) -> CharOffset {
+    fn last_read_offset(&self) -> CharOffset {
         self.cell_offset.saturating_sub(1)
     }
 
+    // where the next token is - if there's nothing left, the best we can do is where we last read
+    fn next_offset(&self) -> CharOffset {
+        if self.input.is_empty() {
+            self.last_read_offset()
+        } else {
+            self.cell_offset
+        }
+    }
+
     fn move_input(&mut self, amount: CharOffset) {
         self.input = &self.input[amount..];
         self.cell_offset += amount;
-- 
2.43.0


From 2368ade2baa9206280ec1d7013c619b651cf9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 63/75] fix: accept windows newlines in line continuations and
 blank first lines

---
 csvp/src/parser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index efc32f6..cb6ab19 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -79,9 +79,7 @@ impl<'a> Parser<'a> {
     }
 
     pub(super) fn parse(&mut self) -> Result<Records> {
-        while self.chars.peek() == Some(&'\n') {
-            self.consume_char();
-        }
+        while self.maybe_consume_newline() {}
 
         let mut records = vec![];
         let mut row = 0;
@@ -110,8 +108,19 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn next_is_newline(&mut self) -> bool {
-        self.chars.peek() == Some(&'\n')
+    /// Consumes a newline (`\n` or `\r\n`) if it's what is next
+    fn maybe_consume_newline(&mut self) -> bool {
+        let mut ahead = self.chars.clone();
+        let newline_length = match (ahead.next(), ahead.next()) {
+            (Some('\n'), _) => 1,
+            (Some('\r'), Some('\n')) => 2,
+            _ => return false,
+        };
+
+        for _ in 0..newline_length {
+            self.consume_char();
+        }
+        true
     }
 
     fn parse_record(&mut self, row: usize) -> Result<RecordResult> {
@@ -160,11 +169,8 @@ impl<'a> Parser<'a> {
             return match self.consume_char() {
                 Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
                 Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-                Some('\\') if self.next_is_newline() => {
-                    // consume the newline then continue parsing this field
-                    self.consume_char();
-                    continue;
-                }
+                // consume the newline then continue parsing this field
+                Some('\\') if self.maybe_consume_newline() => continue,
                 Some('"') => self.parse_quoted_field(fb),
                 Some(c) => {
                     fb.push(c, &mut *self);
@@ -178,10 +184,8 @@ impl<'a> Parser<'a> {
     fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
         loop {
             match self.consume_char() {
-                Some('\\') if self.next_is_newline() => {
-                    // consume the newline then continue parsing this field
-                    self.consume_char();
-                }
+                // consume the newline then continue parsing this field
+                Some('\\') if self.maybe_consume_newline() => continue,
                 Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
                 Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
                 Some(c) => fb.push(c, &mut *self),
-- 
2.43.0


From 36a07552d83dc94455e12538c3a29761261f0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 64/75] fix: print errors about key/values and verbosity

---
 src/compiler/try_from.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..b68b781 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -7,6 +7,11 @@ impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        // errors are logged as well, so this needs to happen before anything can fail
+        logger::init(
+            logger::u8_into_level_filter(cli_args.verbose).unwrap_or(log::LevelFilter::Error),
+        );
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
@@ -15,8 +20,6 @@ impl TryFrom<&CliArgs> for Compiler {
             ..Config::try_from(cli_args)?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0


From 1d51e5d39c33312b1f636d74bdc58a4d827988da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 65/75] fix: fail with an error rather than panic when writing
 .ods files

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..dac9d42 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing .ods files is not supported yet"))
     }
 }
 
-- 
2.43.0


From 9ecbfe40bfc2dfa9d22a935a75cc986ecc978833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 66/75] fix: fail if a workbook can't be written completely

---
 src/target/excel/compilation_target.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..930cf72 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,8 +1,28 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
 use crate::{Module, Result};
+use std::{fs, io};
 use umya_spreadsheet as u;
 
+impl Excel<'_> {
+    /// `u::writer::xlsx::write` ignores errors if they happen when flushing the last of the file, so
+    /// build it in-memory then (just like it does) write it next to the target and move it in place.
+    fn save_spreadsheet(&self, spreadsheet: &u::Spreadsheet) -> io::Result<()> {
+        let mut buffer = vec![];
+        u::writer::xlsx::write_writer(spreadsheet, &mut buffer)
+            .map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string()))?;
+
+        let temp_file = self.path.with_extension("xlsxtmp");
+        let saved =
+            fs::write(&temp_file, buffer).and_then(|()| fs::rename(&temp_file, &self.path));
+        if saved.is_err() {
+            // the original error is the interesting one
+            let _ = fs::remove_file(&temp_file);
+        }
+        saved
+    }
+}
+
 impl CompilationTarget for Excel<'_> {
     fn write_backup(&self) -> Result<()> {
         file_backer_upper::backup_file(self.compiler, &self.path)?;
@@ -20,14 +40,12 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
+        self.save_spreadsheet(&spreadsheet).map_err(|e| {
             self.compiler.output_error(format!(
                 "Unable to write target file {}: {e}",
                 self.path.display()
             ))
-        })?;
-
-        Ok(())
+        })
     }
 }
 
-- 
2.43.0


From d000485a7ce943cb94509243734a96e9f74be121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 67/75] fix: don't panic when the output's extension isn't
 valid UTF-8

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index c9b9cc3..9f9d921 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From 0af0fe228b8a967564ec8f095e6dcd167516d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 68/75] fix: don't use object code which isn't newer than the
 source

Modification times are only updated every few milliseconds (or seconds,
depending on the filesystem) so a source which was edited right after it was
compiled can have the same one as it's object code.
---
 src/module/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index f37c3a3..e385721 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -209,7 +209,7 @@ impl Module {
     /// * `Error::SourceCodeError` - if unable to stat the dependency's source code file
     /// * `Error::SourceCodeError` - if unable to stat the cached object code file
     pub(crate) fn is_older_than(&self, dependency: &Self) -> Result<bool> {
-        Ok(dependency.source_modified()? > self.object_code_modified()?)
+        Ok(dependency.source_modified()? >= self.object_code_modified()?)
     }
 
     fn object_code_modified(&self) -> Result<time::SystemTime> {
@@ -243,7 +243,7 @@ impl Module {
     pub fn check_if_is_dirty(&mut self) -> Result<()> {
         // is the object code more recent than the source? (i.e., no changes since it was last
         // written)
-        if self.source_modified()? > self.object_code_modified()? {
+        if self.source_modified()? >= self.object_code_modified()? {
             self.is_dirty = true;
             self.needs_eval = true;
             return Ok(());
-- 
2.43.0


From 54f121caf8d5888219718940b9ed73bf9b89a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 69/75] fix: load the required module when its name has a `.`

---
 src/module_path/try_from.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module_path/try_from.rs b/src/module_path/try_from.rs
index c45a8c6..fc3b866 100644
--- a/src/module_path/try_from.rs
+++ b/src/module_path/try_from.rs
@@ -6,7 +6,8 @@ use std::path;
 impl From<ModulePath> for path::PathBuf {
     fn from(mn: ModulePath) -> path::PathBuf {
         let mut p: path::PathBuf = mn.0.iter().collect();
-        p.set_extension("csvpp");
+        // the name can have a `.` in it, which isn't an extension that could be replaced
+        p.as_mut_os_string().push(".csvpp");
         p
     }
 }
-- 
2.43.0


From 68dcc1dacb67368178013176106f6ddcaf6ea53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 70/75] fix: don't take variables used by an imported
 function's callees for its parameters

---
 src/ast/eval.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2adcb69..b0b9470 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -11,6 +11,10 @@ impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
     /// progress means that `.extract_references()` returns a new, non-empty result each time.
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
+        if let Node::Function { args, body, name } = &*self {
+            return Self::eval_function(name, args, body, scope, position);
+        }
+
         let mut evaled_ast = self;
         let mut previous_refs: Vec<AstReferences> = vec![];
 
@@ -35,6 +39,32 @@ impl Ast {
         Ok(evaled_ast)
     }
 
+    /// Evaluate the body of a function.  Meanwhile it's parameters have names which can't occur
+    /// anywhere else, otherwise they could be mistaken for variables which have the same name and
+    /// are used by the functions that it calls.
+    fn eval_function(
+        name: &str,
+        args: &[String],
+        body: &Self,
+        scope: &Scope,
+        position: Option<a1::Address>,
+    ) -> EvalResult<Self> {
+        let unique = |arg: &String| format!("{arg} of {name}");
+        let rename = |from: String, to: String| (from, Node::Reference(to).into());
+
+        let body = body
+            .replace_variables(&args.iter().map(|a| rename(a.clone(), unique(a))).collect())
+            .eval(scope, position)?
+            .replace_variables(&args.iter().map(|a| rename(unique(a), a.clone())).collect());
+
+        Ok(Node::Function {
+            args: args.to_vec(),
+            body,
+            name: name.to_string(),
+        }
+        .into())
+    }
+
     /// Variables can all be resolved in one go - we just loop them by name and resolve the ones
     /// that we can and leave the rest alone.
     fn resolve_variables(
-- 
2.43.0


From fc9e81640144a06c970927996bf19e42acee87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 71/75] fix: compile even if object code can't be written

---
 src/compiler/mod.rs      |  2 +-
 src/module/mod.rs        | 21 +++++++++++++--------
 src/module_loader/mod.rs |  2 +-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index fa556c1..cc52558 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -85,7 +85,7 @@ impl Compiler {
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
                 );
-                main_module.write_object_file()?;
+                main_module.write_to_cache();
             }
         } else {
             info!("Cached main is up to date, skipping compilation");
diff --git a/src/module/mod.rs b/src/module/mod.rs
index e385721..7651486 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -13,7 +13,7 @@ use crate::parser::code_section_parser::CodeSectionParser;
 use crate::{
     compiler_error, ArcSourceCode, Error, ModulePath, Result, Scope, SourceCode, Spreadsheet,
 };
-use log::{debug, error, info, warn};
+use log::{debug, info, warn};
 use rayon::prelude::*;
 use std::{cmp, fs, path, time};
 
@@ -180,7 +180,15 @@ impl Module {
         Ok(loaded_module)
     }
 
-    pub(crate) fn write_object_file(&mut self) -> Result<()> {
+    /// Write the object code for `self`.  It's only a cache (and it might not be possible to write
+    /// to the directory of the source code) so failing to do so doesn't prevent us from compiling.
+    pub(crate) fn write_to_cache(&mut self) {
+        if let Err(e) = self.write_object_file() {
+            warn!("Unable to cache {}: {e}", self.module_path);
+        }
+    }
+
+    fn write_object_file(&mut self) -> Result<()> {
         let object_code_filename = self.source_code.object_code_filename();
 
         debug!("Serializing {}", self.module_path);
@@ -191,12 +199,9 @@ impl Module {
 
         info!("Writing object file to {}", object_code_filename.display());
 
-        fs::write(&object_code_filename, encoded).map_err(|e| {
-            error!("IO error: {e:?}");
-            Error::SourceCodeError {
-                filename: object_code_filename,
-                message: format!("Error opening object code for writing: {e}"),
-            }
+        fs::write(&object_code_filename, encoded).map_err(|e| Error::SourceCodeError {
+            filename: object_code_filename,
+            message: format!("Error opening object code for writing: {e}"),
         })?;
 
         Ok(())
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 025a2b4..f655e84 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -195,7 +195,7 @@ impl ModuleLoader {
             // write the csvpo file before merging anything into the scope, because the scopes of our
             // dependencies can change without this module changing
             if self.use_cache {
-                to_resolve.write_object_file()?;
+                to_resolve.write_to_cache();
             }
 
             // let mut local_scope = to_resolve.scope.clone();
-- 
2.43.0


From 4567c028f1880d2670e3b2914b405c4b3802b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 72/75] fix: don't overwrite other files with the temp file of
 a workbook

---
 src/target/excel/compilation_target.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index 930cf72..2536597 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,7 +1,8 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
 use crate::{Module, Result};
-use std::{fs, io};
+use std::io::Write;
+use std::{fs, io, path};
 use umya_spreadsheet as u;
 
 impl Excel<'_> {
@@ -12,15 +13,29 @@ impl Excel<'_> {
         u::writer::xlsx::write_writer(spreadsheet, &mut buffer)
             .map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string()))?;
 
-        let temp_file = self.path.with_extension("xlsxtmp");
-        let saved =
-            fs::write(&temp_file, buffer).and_then(|()| fs::rename(&temp_file, &self.path));
+        let (temp_file, mut file) = self.create_temp_file()?;
+        let saved = file
+            .write_all(&buffer)
+            .and_then(|()| fs::rename(&temp_file, &self.path));
         if saved.is_err() {
             // the original error is the interesting one
             let _ = fs::remove_file(&temp_file);
         }
         saved
     }
+
+    /// It has to be in the same directory as the target (so that it can be moved there), but it
+    /// can't be any file that already exists
+    fn create_temp_file(&self) -> io::Result<(path::PathBuf, fs::File)> {
+        let mut attempt = 0;
+        loop {
+            let temp_file = self.path.with_file_name(format!(".csvpp-{attempt}.tmp"));
+            match fs::File::create_new(&temp_file) {
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+                created => return created.map(|file| (temp_file, file)),
+            }
+        }
+    }
 }
 
 impl CompilationTarget for Excel<'_> {
-- 
2.43.0


From 9b1e3a5b82aac2c1ef67446fc21cc557ea5ab84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 73/75] fix: don't overwrite a source file named .csvpo with
 it's object code

---
 src/module/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 7651486..94cf146 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -190,6 +190,10 @@ impl Module {
 
     fn write_object_file(&mut self) -> Result<()> {
         let object_code_filename = self.source_code.object_code_filename();
+        if object_code_filename == self.source_code.filename {
+            // don't overwrite the source code
+            return Ok(());
+        }
 
         debug!("Serializing {}", self.module_path);
         let encoded = bincode::serialize(&self).map_err(|e| Error::SourceCodeError {
-- 
2.43.0


From cc5d40389970df0bfed0ed6731fedec28434066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:42 +0000
Subject: [PATCH 74/75] fix: don't trust object code which is replaced while
 compiling

---
 src/compiler/mod.rs |  7 ++++++-
 src/module/mod.rs   | 19 ++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index cc52558..73ba0b7 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -47,6 +47,7 @@ impl Compiler {
         // the object code doesn't say which key/values it was compiled with
         let use_cached_main = self.config.use_cache && self.config.key_values.is_empty();
 
+        let modified_before = Module::object_code_modified_at(&self.input_filename);
         let main_module = if use_cached_main {
             Module::load_from_cache_from_filename(
                 main_module_path.clone(),
@@ -63,7 +64,11 @@ impl Compiler {
         let mut main_module =
             ModuleLoader::load_main(main_module, loader_root.clone(), self.config.use_cache)?;
 
-        if main_module.is_dirty {
+        // or another csv++ has written the object code since we've read it
+        let is_rewritten = !main_module.needs_eval
+            && Module::object_code_modified_at(&self.input_filename) != modified_before;
+
+        if main_module.is_dirty || is_rewritten {
             info!("Dependencies have changed since main was cached");
             main_module = ModuleLoader::load_main(
                 Module::load_from_source_from_filename(
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 94cf146..5839a70 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -146,13 +146,17 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
+        let modified_before = Self::object_code_modified_at(&filename);
+
         if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
         {
             loaded_module.check_if_is_dirty()?;
 
-            // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
+            // if we have a clean cache read we can just return that, otherwise (it's dirty or
+            // another csv++ wrote it since we've read it) we'll need to reload below
+            if !loaded_module.is_dirty
+                && Self::object_code_modified_at(&filename) == modified_before
+            {
                 return Ok(loaded_module);
             }
         }
@@ -221,6 +225,15 @@ impl Module {
         Ok(dependency.source_modified()? >= self.object_code_modified()?)
     }
 
+    /// When was the object code for `source_filename` written?
+    pub(crate) fn object_code_modified_at(
+        source_filename: &path::Path,
+    ) -> Option<time::SystemTime> {
+        fs::metadata(source_filename.with_extension("csvpo"))
+            .and_then(|s| s.modified())
+            .ok()
+    }
+
     fn object_code_modified(&self) -> Result<time::SystemTime> {
         let object_code_filename = self.source_code.object_code_filename();
 
-- 
2.43.0


From 61d313565e7c11cb093f5adf8dddb8e34f9855d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:39 +0000
Subject: [PATCH 75/75] fix: don't overwrite a backup which is made at the same
 time

---
 src/target/file_backer_upper.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index d2bdc1b..a273d13 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -2,6 +2,7 @@ use crate::{Compiler, Result};
 use chrono::prelude::Local;
 use log::info;
 use std::fs;
+use std::io;
 use std::path;
 
 const BACKUP_FORMATS: &[&str] = &[
@@ -56,14 +57,20 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
             file_extension.to_str().unwrap()
         ));
 
-        if new_file.exists() {
-            continue;
-        }
+        let backup_error = |e: io::Error| {
+            compiler.output_error(format!("Error making backup of {filename_str}: {e}"))
+        };
+
+        // it has to be ours - not just missing, because another backup might be made meanwhile
+        match fs::File::create_new(&new_file) {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
+            created => created.map_err(backup_error)?,
+        };
 
         if let Err(e) = fs::copy(filename, &new_file) {
-            return Err(
-                compiler.output_error(format!("Error making backup of {filename_str}: {e}",))
-            );
+            // don't leave an empty backup, but the original error is the interesting one
+            let _ = fs::remove_file(&new_file);
+            return Err(backup_error(e));
         }
 
         return Ok(new_file);
-- 
2.43.0

