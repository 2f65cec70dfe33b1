From 20e1e8dbf5581b362d804375dc1b370704ba275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 01/25] fix: report tokens that have no parser rule instead of
 panicking

---
 dice-syntax/src/parser/rules.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..45717c5 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +230,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From 70d888237f95a7bc1858b7dc839e31cbc64c6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 02/25] fix: reject input left over after a stray closing brace

---
 dice-syntax/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..b07ebd5 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,7 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From 64b0e2e928694da5c88c9a5f3aae0a1b09ad9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 03/25] fix: require a block or an if after else

---
 dice-syntax/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b07ebd5..278a8d3 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -151,10 +151,11 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next_token = self.lexer.peek()?;
+            match next_token.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next_token.span)?,
             }
         } else {
             None
-- 
2.43.0


From 40bc57eb1b0b3570938fc7ddfe51f0b79a7ee35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 04/25] fix: consume the name in an export of an existing
 variable

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 278a8d3..689238f 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -322,9 +322,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.consume(TokenKind::Identifier)?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 64d0160c6ea8f75204a50336e78297b36586a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:32 +0000
Subject: [PATCH 05/25] fix: recognise empty comments

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..48633f9 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From c363fc68839142bd27a1a6b8925acf7b3358da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:51 +0000
Subject: [PATCH 06/25] fix: strip the quotes from string keys in object
 literals

---
 dice-syntax/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 689238f..06a4383 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -952,7 +952,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
-- 
2.43.0


From 3bfea7e3b3a7899cbe7f35152156adead14c0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 07/25] fix: honour mut on destructuring declarations

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..087daeb 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -52,7 +52,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
 
                 Ok((item.as_str(), slot as u8))
             })
-- 
2.43.0


From 291f209e565d4163b12672c1550aba4b5c294353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 08/25] fix: display the range operators with their own symbols

---
 dice-syntax/src/ast/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/ast/node.rs b/dice-syntax/src/ast/node.rs
index b3143c6..4c84fa1 100644
--- a/dice-syntax/src/ast/node.rs
+++ b/dice-syntax/src/ast/node.rs
@@ -277,8 +277,8 @@ impl Display for OverloadedOperator {
             OverloadedOperator::LessThanEquals => write!(f, "<="),
             OverloadedOperator::Equals => write!(f, "=="),
             OverloadedOperator::NotEquals => write!(f, "!="),
-            OverloadedOperator::RangeInclusive => write!(f, ".."),
-            OverloadedOperator::RangeExclusive => write!(f, "..="),
+            OverloadedOperator::RangeInclusive => write!(f, "..="),
+            OverloadedOperator::RangeExclusive => write!(f, ".."),
         }
     }
 }
-- 
2.43.0


From 45ce8dd6c675f36996fc1f9fcba21d715bb31ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 09/25] fix: end iteration of inclusive range values

---
 data/scripts/prelude.dm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scripts/prelude.dm b/data/scripts/prelude.dm
index 0d90317..aad1eb8 100644
--- a/data/scripts/prelude.dm
+++ b/data/scripts/prelude.dm
@@ -35,9 +35,9 @@ export class RangeInclusive {
         #{
             next: || {
                 let result = if current <= self.end {
-                    #{ value: current, done: false }
+                    #{ value: current, is_done: false }
                 } else {
-                    #{ done: true }
+                    #{ is_done: true }
                 }
 
                 current += 1
-- 
2.43.0


From 113f876ba047a78db7fd995177f0d4d4d68dc88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:08 +0000
Subject: [PATCH 10/25] fix: give every error code its own number and message

---
 data/locales/en-US/errors.ftl | 5 ++++-
 dice-core/src/error/codes.rs  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..e9084af 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
@@ -69,4 +70,6 @@ E3402 = Classes cannot inherit from value types.
 # System errors
 E4000 = A panic has occurred. {$message}
 E4001 = IO error occurred. {$message}
-E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
\ No newline at end of file
+E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
+E4003 = The module {$name} already exists.
+E4004 = The global {$name} already exists.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..4f4ee1a 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -73,4 +73,4 @@ pub static PANIC: ErrorCode = "E4000";
 pub static IO_ERROR: ErrorCode = "E4001";
 pub static INVALID_SCRIPT_LOCATION: ErrorCode = "E4002";
 pub static MODULE_ALREADY_EXISTS: ErrorCode = "E4003";
-pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4002";
+pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4004";
-- 
2.43.0


From e51ad3a9fcdb928d0f53a0a77701af1cf843a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 11/25] fix: reject declarations whose name is already taken in
 their block

---
 dice-compiler/src/visitor/decl_class.rs | 8 ++++----
 dice-compiler/src/visitor/decl_fn.rs    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..7a8aaa2 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -55,16 +55,16 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
             // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                // NOTE: The name is already taken, either by a class or by something else declared in the same scope.
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
                         }));
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..c860e78 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -68,15 +68,15 @@ impl Compiler {
 
         // NOTE: Check if a function of the given name has already been initialized.
         match &mut local.state {
-            State::Function { ref mut is_initialized } if *is_initialized => {
+            State::Function { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+            // NOTE: The name is already taken, either by a function or by something else declared in the same scope.
+            _ => {
                 return Err(Error::new(FUNCTION_ALREADY_DECLARED)
                     .with_span(fn_decl.name.span)
                     .with_tags(tags! {
                         name => fn_decl.name.identifier.clone()
                     }));
             }
-            State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From 0625e4b218357f1bad8d39746c3fafbb221bc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 12/25] fix: reject super calls outside of methods and
 constructors

---
 dice-compiler/src/visitor/expr_super_call.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..123789a 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,15 +1,22 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
-- 
2.43.0


From fbf76da6a30b0b63bd52359df654490353d96585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 13/25] fix: reject exports of destructuring declarations

---
 dice-compiler/src/visitor/decl_export.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..1a996b1 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -31,6 +31,17 @@ impl NodeVisitor<&ExportDecl> for Compiler {
                 .with_span(node.span));
         }
 
+        // NOTE: A destructuring declaration has no single name to export its value under.
+        if let SyntaxNode::VarDecl(VarDecl {
+            kind: VarDeclKind::Destructured(_),
+            ..
+        }) = self.syntax_tree.get(node.export)
+        {
+            return Err(Error::new(INVALID_EXPORT_USAGE)
+                .with_source(self.source.clone())
+                .with_span(node.span));
+        }
+
         let export_slot = self
             .context()?
             .scope_stack()
-- 
2.43.0


From 2f79c43b5a34289f49f8e0e25985ec37db93e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 14/25] fix: reject duplicate parameters of anonymous functions

---
 dice-compiler/src/visitor/literal_anonymous_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..90d05f0 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -8,6 +8,8 @@ use super::NodeVisitor;
 
 impl NodeVisitor<&LitAnonymousFn> for Compiler {
     fn visit(&mut self, node: &LitAnonymousFn) -> Result<(), Error> {
+        Self::assert_unique_params(&node.args, node.span)?;
+
         let id = uuid::Uuid::new_v4();
         let name = format!("__anonymous_fn_{id}");
         let body = self.syntax_tree.child(node.body);
-- 
2.43.0


From 84b3b91e0a130bf9d65d3a5d76ebdef98f8e1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 15/25] fix: clean up pending operands and captured variables
 on every early exit

---
 dice-compiler/src/assembler.rs               |  5 ++
 dice-compiler/src/scope_stack.rs             | 79 ++++++++++++++++++--
 dice-compiler/src/visitor/decl_export.rs     |  2 +-
 dice-compiler/src/visitor/expr_assignment.rs | 14 ++--
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 +-
 dice-compiler/src/visitor/expr_block.rs      | 52 +++++++++++--
 dice-compiler/src/visitor/expr_break.rs      |  3 +
 dice-compiler/src/visitor/expr_continue.rs   | 11 ++-
 dice-compiler/src/visitor/expr_for.rs        | 14 +++-
 dice-compiler/src/visitor/expr_loop.rs       |  6 +-
 dice-compiler/src/visitor/expr_range_loop.rs | 14 +++-
 dice-compiler/src/visitor/expr_while.rs      |  6 +-
 dice-compiler/src/visitor/literal_list.rs    |  4 +-
 dice-compiler/src/visitor/literal_object.rs  |  3 +-
 14 files changed, 176 insertions(+), 41 deletions(-)

diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..1665840 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -725,6 +725,11 @@ macro_rules! emit_bytecode {
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     };
 
+    ($assembler:expr, $span:expr => [CLOSE_UPVALUE $slot:expr; $($rest:tt)*]) => {
+        $assembler.close_upvalue($slot, $span);
+        emit_bytecode! { $assembler, $span => [$($rest)*] }
+    };
+
     ($assembler:expr, $span:expr => [CLOSE_UPVALUES $variables:expr; $($rest:tt)*]) => {
         for variable in $variables {
             if variable.is_captured {
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..d74e975 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -56,6 +56,8 @@ pub struct ScopeContext {
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
+    pub continue_points: Vec<usize>,
+    pub temporary_count: usize,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -68,6 +70,8 @@ impl Default for ScopeContext {
             kind: ScopeKind::Block,
             entry_point: None,
             exit_points: Vec::new(),
+            continue_points: Vec::new(),
+            temporary_count: 0,
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -100,6 +104,18 @@ impl ScopeStack {
         });
     }
 
+    /// Push the scope of a loop, whose body executes with the specified number of temporaries on the stack. If the loop
+    /// has no entry point, then `continue` jumps forward to a location that is patched once the loop's body is compiled.
+    pub fn push_loop_scope(&mut self, entry_point: Option<usize>, temporary_count: usize) {
+        self.stack.push(ScopeContext {
+            kind: ScopeKind::Loop,
+            depth: self.stack.len(),
+            entry_point,
+            temporary_count,
+            ..Default::default()
+        });
+    }
+
     pub fn pop_scope(&mut self) -> Result<ScopeContext, Error> {
         self.stack.pop().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
@@ -157,18 +173,69 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a continue to the inner most loop's scope, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
         let scope = self
-            .first_of_kind(kind)
+            .first_of_kind_mut(ScopeKind::Loop)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
+        scope.continue_points.push(continue_point);
+
+        Ok(())
+    }
+
+    /// Get the entry point of the inner most loop, if its start can be jumped back to directly.
+    pub fn loop_entry_point(&self) -> Option<usize> {
+        self.first_of_kind(ScopeKind::Loop).and_then(|scope| scope.entry_point)
+    }
+
+    /// Get the number of temporaries that are on the stack while executing the body of the inner most loop.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        self.first_of_kind(ScopeKind::Loop)
+            .map(|scope| scope.temporary_count)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// Get the slots of the captured variables that go out of scope when the current iteration of the inner most loop is
+    /// left, optionally including the variables of the loop itself.
+    pub fn captured_in_loop(&self, include_loop_variables: bool) -> Vec<usize> {
+        let mut slots = Vec::new();
+
+        for scope in self.stack.iter().rev() {
+            if scope.kind != ScopeKind::Loop || include_loop_variables {
+                slots.extend(scope.variables.iter().filter(|var| var.is_captured).map(|var| var.slot));
+            }
+
+            if scope.kind == ScopeKind::Loop {
+                break;
+            }
+        }
+
+        slots
+    }
+
+    /// Get the slots of the variables to close when the current function is left. Variables declared outside of a loop
+    /// that is being left may have been captured by code further down in the loop's body during an earlier iteration, so
+    /// they are always included.
+    pub fn captured_in_function(&self) -> Vec<usize> {
+        let mut slots = Vec::new();
+        let mut is_outside_of_loop = false;
+
+        for scope in self.stack.iter().rev() {
+            slots.extend(
+                scope
+                    .variables
+                    .iter()
+                    .filter(|var| var.is_captured || (is_outside_of_loop && !var.name.is_empty()))
+                    .map(|var| var.slot),
+            );
+
+            is_outside_of_loop |= scope.kind == ScopeKind::Loop;
+        }
+
+        slots
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index 1a996b1..bf10c58 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -49,7 +49,7 @@ impl NodeVisitor<&ExportDecl> for Compiler {
             .expect("#export should always be defined in modules.")
             .slot as u8;
         self.assembler()?.load_local(export_slot, node.span);
-        self.visit(node.export)?;
+        self.visit_with_temporaries(node.export, 1)?;
 
         let field_name = match self.syntax_tree.get(node.export) {
             SyntaxNode::VarDecl(VarDecl {
diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..62572af 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -3,7 +3,7 @@ use dice_core::{
     protocol::class::SELF,
     span::Span,
 };
-use dice_syntax::{Block, FnArg, SyntaxNode};
+use dice_syntax::{Block, FnArg, SyntaxNode, SyntaxNodeId};
 
 use crate::{
     compiler::Compiler,
@@ -81,12 +81,9 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
 
-        if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
-            self.visit_return(block.span)?
-        } else if let FunctionBlockKind::Constructor(..) = kind {
-            // NOTE: If in context of a constructor, pop the last value, load self, return.
+        if let FunctionBlockKind::Constructor(..) = kind {
+            // NOTE: If in context of a constructor, pop the last value and return self instead.
             let local_slot = self
                 .context()?
                 .scope_stack()
@@ -98,11 +95,11 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
-                    RET;
                 ]
             }
         }
 
+        self.visit_return(block.span)?;
         self.context()?.scope_stack().pop_scope()?;
 
         Ok(())
@@ -173,7 +170,36 @@ impl Compiler {
         Ok(())
     }
 
+    /// Visit an expression that is evaluated while the specified number of additional temporaries are on the stack.
+    pub(super) fn visit_with_temporaries(&mut self, node: SyntaxNodeId, count: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += count;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= count;
+
+        Ok(())
+    }
+
+    /// Clean up the temporaries and captured variables of the current iteration of the inner most loop.
+    pub(super) fn visit_loop_exit(&mut self, include_loop_variables: bool, span: Span) -> Result<(), Error> {
+        let context = self.context()?;
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        let captured_slots = context.scope_stack().captured_in_loop(include_loop_variables);
+
+        for _ in 0..temporary_count {
+            context.assembler().pop(span);
+        }
+
+        for slot in captured_slots {
+            context.assembler().close_upvalue(slot as u8, span);
+        }
+
+        Ok(())
+    }
+
+    /// Return the value on top of the stack, after checking its type and closing the variables of the function.
     pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
+        let captured_slots = self.context()?.scope_stack().captured_in_function();
+
         if let CompilerKind::Function {
             return_type: Some(return_type),
         }
@@ -184,6 +210,9 @@ impl Compiler {
             emit_bytecode! {
                 self.assembler()?, span => [
                     {self.visit(&return_type.name)?};
+                    for slot in captured_slots => [
+                        CLOSE_UPVALUE slot as u8;
+                    ]
                     if return_type.is_nullable => [
                         ASSERT_TYPE_OR_NULL_AND_RETURN;
                     ] else [
@@ -192,7 +221,14 @@ impl Compiler {
                 ]
             }
         } else {
-            self.assembler()?.ret(span)
+            emit_bytecode! {
+                self.assembler()?, span => [
+                    for slot in captured_slots => [
+                        CLOSE_UPVALUE slot as u8;
+                    ]
+                    RET;
+                ]
+            }
         }
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..405c516 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -11,6 +11,9 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        self.visit_loop_exit(true, *span)?;
+
+        let context = self.context()?;
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..c35a2ad 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,8 +10,15 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        self.visit_loop_exit(false, *span)?;
+
+        let context = self.context()?;
+        if let Some(loop_start) = context.scope_stack().loop_entry_point() {
+            context.assembler().jump_back(loop_start as u64, *span);
+        } else {
+            let patch_location = context.assembler().jump(*span);
+            context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..c9bf69e 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -6,7 +6,7 @@ use dice_syntax::ForLoop;
 
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
 };
 
 use super::NodeVisitor;
@@ -33,7 +33,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: The next method stays on the stack as a temporary while the loop executes.
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
@@ -50,7 +52,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        self.visit(for_loop.body)?;
+        self.visit_with_temporaries(for_loop.body, 1)?;
 
         let context = self.context()?;
 
@@ -59,13 +61,18 @@ impl NodeVisitor<&ForLoop> for Compiler {
         emit_bytecode! {
             context.assembler(), for_loop.span => [
                 POP;
+                for continue_point in scope_context.continue_points.iter() => [
+                    PATCH_JUMP <- *continue_point as u64;
+                ]
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
         }
 
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
+        // Breaking out of the loop happens after the result of the iterator has already been consumed.
         context.assembler().patch_jump(loop_exit);
+        context.assembler().pop(for_loop.span);
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
@@ -73,7 +80,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..7f85e22 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -9,9 +9,11 @@ impl NodeVisitor<&Loop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
+
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..3f1499c 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,6 +1,6 @@
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
     visitor::NodeVisitor,
 };
 use dice_core::{error::Error, span::Span};
@@ -25,14 +25,16 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: The end of the range stays on the stack as a temporary while the loop executes.
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
@@ -52,13 +54,17 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        self.visit(range_loop.body)?;
+        self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
+        let continue_points = std::mem::take(&mut context.scope_stack().top_mut()?.continue_points);
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 POP;
+                for continue_point in continue_points => [
+                    PATCH_JUMP <- continue_point as u64;
+                ]
                 LOAD_LOCAL variable_slot;
                 PUSH_I1;
                 ADD;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..0833f66 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -9,9 +9,11 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
+
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..88590f4 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,8 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            // NOTE: Both the object and its duplicate are on the stack while the field's value is evaluated.
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
-- 
2.43.0


From b3aac9bfde79fd78ef94ea1b8ca6c67dcfe0f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 16/25] fix: end null propagation at the end of its own access
 chain

---
 dice-compiler/src/visitor/syntax_node.rs | 33 +++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..75a4a6c 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,7 +10,36 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
-        match &node {
+        // NOTE: Anything other than a link of a call chain ends the chain that it's a part of, so null propagations inside of
+        // it must not short-circuit the links that follow it.
+        if !Self::is_call_chain(&node) {
+            let original_call_context = std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context);
+            self.visit_node(&node)?;
+            self.context()?.scope_stack().top_mut()?.call_context = original_call_context;
+
+            return Ok(());
+        }
+
+        self.visit_node(&node)
+    }
+}
+
+impl Compiler {
+    fn is_call_chain(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
+    fn visit_node(&mut self, node: &SyntaxNode) -> Result<(), Error> {
+        match node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
             SyntaxNode::LitNull(literal) => self.visit(literal)?,
@@ -78,9 +107,7 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
 
         Ok(())
     }
-}
 
-impl Compiler {
     fn enter_call(&mut self) -> Result<(), Error> {
         let context = &mut self.context()?.scope_stack().top_mut()?.call_context;
         context.depth += 1;
-- 
2.43.0


From ffb159d44a13932d044d075ea2ab1447ac887af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:19 +0000
Subject: [PATCH 17/25] fix: evaluate the operand of a nullable type test once

---
 dice-compiler/src/assembler.rs       |  5 +++++
 dice-compiler/src/visitor/expr_is.rs | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index 1665840..6fabcb5 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -624,6 +624,11 @@ macro_rules! emit_bytecode {
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     }};
 
+    ($assembler:expr, $span:expr => [JUMP -> $loc:ident; $($rest:tt)*] ) => {
+        $loc = $assembler.jump($span);
+        emit_bytecode! { $assembler, $span => [$($rest)*] }
+    };
+
     ($assembler:expr, $span:expr => [JUMP_IF_FALSE -> $loc:ident; $($rest:tt)*] ) => {
         $loc = $assembler.jump_if_false($span);
         emit_bytecode! { $assembler, $span => [$($rest)*] }
diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..9b624f3 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -8,18 +8,21 @@ impl NodeVisitor<&Is> for Compiler {
         if type_.is_nullable {
             // TODO: Replace this with an IS_TYPE_OR_NULL instruction.
             let type_check_jump;
+            let end_jump;
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
+                    JUMP_IF_FALSE -> type_check_jump;
                     POP;
-                    {self.visit(*value)?};
+                    PUSH_BOOL true;
+                    JUMP -> end_jump;
+                    PATCH_JUMP <- type_check_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From 371f7af2af09fd48678084d3fbfe6a961539a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:36 +0000
Subject: [PATCH 18/25] fix: report locals, arguments, list items and jumps
 beyond the encoding limits

---
 data/locales/en-US/errors.ftl                 |  3 ++
 dice-compiler/src/assembler.rs                | 36 +++++++++++++++----
 dice-compiler/src/compiler.rs                 |  2 +-
 dice-compiler/src/compiler_stack.rs           |  2 +-
 dice-compiler/src/decl_scan.rs                | 14 ++++----
 dice-compiler/src/scope_stack.rs              | 11 +++++-
 dice-compiler/src/visitor/decl_class.rs       |  5 +--
 dice-compiler/src/visitor/decl_fn.rs          |  2 +-
 dice-compiler/src/visitor/decl_import.rs      |  8 +++--
 dice-compiler/src/visitor/decl_op.rs          |  2 +-
 dice-compiler/src/visitor/decl_var.rs         |  8 +++--
 dice-compiler/src/visitor/expr_block.rs       |  5 +--
 dice-compiler/src/visitor/expr_fn_call.rs     |  6 +++-
 dice-compiler/src/visitor/expr_for.rs         |  5 +--
 dice-compiler/src/visitor/expr_range_loop.rs  |  8 +++--
 dice-compiler/src/visitor/expr_super_call.rs  |  9 ++++-
 .../src/visitor/literal_anonymous_fn.rs       |  2 +-
 dice-compiler/src/visitor/literal_list.rs     |  6 +++-
 dice-core/src/error/codes.rs                  |  3 ++
 19 files changed, 101 insertions(+), 36 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index e9084af..ee37408 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -15,6 +15,9 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The maximum number of local variables (256) has been exceeded for this compilation unit.
+E2103 = The maximum number of items in a list literal (255) has been exceeded.
+E2104 = The code to jump over is too large for this compilation unit.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index 6fabcb5..a41ad4c 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use bytes::BufMut as _;
 
@@ -6,7 +6,7 @@ use dice_bytecode::Instruction;
 use dice_bytecode::{Bytecode, ConstantValue};
 use dice_core::{
     error::{
-        codes::{TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
+        codes::{JUMP_TOO_FAR, TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
         Error,
     },
     source::Source,
@@ -19,6 +19,7 @@ pub struct Assembler {
     constants: Vec<ConstantValue>,
     source_map: HashMap<u64, Span>,
     data: Vec<u8>,
+    jump_error: Option<Error>,
 }
 
 impl Assembler {
@@ -27,18 +28,23 @@ impl Assembler {
             constants: Default::default(),
             source_map: Default::default(),
             data: Default::default(),
+            jump_error: None,
         }
     }
 
-    pub fn generate(self, slot_count: usize, upvalue_count: usize, _source: Source) -> Bytecode {
-        Bytecode::new(
+    pub fn generate(self, slot_count: usize, upvalue_count: usize, _source: Source) -> Result<Bytecode, Error> {
+        if let Some(error) = self.jump_error {
+            return Err(error);
+        }
+
+        Ok(Bytecode::new(
             self.data.into(),
             slot_count,
             upvalue_count,
             self.constants.into_boxed_slice(),
             // source,
             // self.source_map,
-        )
+        ))
     }
 
     pub fn push_null(&mut self, span: Span) {
@@ -260,17 +266,33 @@ impl Assembler {
     }
 
     pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
+        let span = self
+            .source_map
+            .get(&(jump_position - 1))
+            .copied()
+            .unwrap_or_else(Span::empty);
+        let offset = self.jump_offset((self.current_position() - jump_position - 2) as i64, span);
         (&mut self.data[jump_position as usize..]).put_i16(offset)
     }
 
     pub fn jump_back(&mut self, position: u64, span: Span) {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
+        let offset = self.jump_offset(-((self.current_position() - position + 2) as i64), span);
         self.data.put_i16(offset);
     }
 
+    // NOTE: Jump offsets are encoded as 16-bit integers. Remember the first jump that does not fit so that generating the
+    // bytecode fails.
+    fn jump_offset(&mut self, offset: i64, span: Span) -> i16 {
+        i16::try_from(offset).unwrap_or_else(|_| {
+            self.jump_error
+                .get_or_insert_with(|| Error::new(JUMP_TOO_FAR).with_span(span));
+
+            0
+        })
+    }
+
     pub fn current_position(&self) -> u64 {
         (self.data.len()) as u64
     }
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..90d7015 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -64,7 +64,7 @@ impl Compiler {
 
         let compiler_context = self.compiler_stack.pop()?;
 
-        Ok(compiler_context.finish(self.source.clone()))
+        compiler_context.finish(self.source.clone())
     }
 
     pub(super) fn context(&mut self) -> Result<&mut CompilerContext, Error> {
diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..e593904 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -85,7 +85,7 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
-    pub fn finish(mut self, source: Source) -> Bytecode {
+    pub fn finish(mut self, source: Source) -> Result<Bytecode, Error> {
         let slot_count = self.scope_stack.slot_count;
         let upvalue_count = self.upvalues().len();
         self.assembler.generate(slot_count, upvalue_count, source)
diff --git a/dice-compiler/src/decl_scan.rs b/dice-compiler/src/decl_scan.rs
index 07a16cf..14293ee 100644
--- a/dice-compiler/src/decl_scan.rs
+++ b/dice-compiler/src/decl_scan.rs
@@ -1,6 +1,6 @@
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
-use dice_syntax::{Block, ClassDecl, FnDecl, SyntaxNode, SyntaxNodeId};
+use dice_core::error::{Error, ResultExt as _};
+use dice_syntax::{Block, ClassDecl, FnDecl, LitIdent, SyntaxNode, SyntaxNodeId};
 
 impl Compiler {
     // NOTE: Scan through all the declared items in a block and add slots for any functions and classes ahead of time.
@@ -37,19 +37,21 @@ impl Compiler {
     }
 
     fn scan_fn_decl(&mut self, fn_decl: FnDecl) -> Result<(), Error> {
-        let name = fn_decl.name.identifier;
+        let LitIdent { identifier: name, span } = fn_decl.name;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Function { is_initialized: false })?;
+            .add_local(name, State::Function { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
 
     fn scan_class_decl(&mut self, class_decl: ClassDecl) -> Result<(), Error> {
-        let name = class_decl.name.identifier;
+        let LitIdent { identifier: name, span } = class_decl.name;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Class { is_initialized: false })?;
+            .add_local(name, State::Class { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index d74e975..04272cc 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,4 +1,7 @@
-use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
+use dice_core::error::{
+    codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
+    Error,
+};
 
 #[derive(Clone)]
 pub struct ScopeVariable {
@@ -133,6 +136,12 @@ impl ScopeStack {
 
         let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
         let slot = slot_count - 1;
+
+        // NOTE: Slots are encoded as a single byte.
+        if slot > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_LOCALS));
+        }
+
         let local = ScopeVariable {
             name,
             slot,
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index 7a8aaa2..5e9c31f 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -4,7 +4,7 @@ use dice_core::{
             CLASS_ALREADY_DECLARED, INTERNAL_COMPILER_ERROR, METHOD_RECEIVER_CANNOT_HAVE_TYPE,
             NEW_METHOD_MUST_HAVE_RECEIVER, OPERATOR_MUST_HAVE_RECEIVER,
         },
-        Error,
+        Error, ResultExt as _,
     },
     protocol::{
         class::{NEW, SELF, SUPER},
@@ -38,7 +38,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         let super_slot = self
             .context()?
             .scope_stack()
-            .add_local(SUPER, State::initialized(true))? as u8;
+            .add_local(SUPER, State::initialized(true))
+            .with_span(|| node.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, node.span => [
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index c860e78..e44cbd1 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -22,7 +22,7 @@ impl NodeVisitor<(&FnDecl, FnKind)> for Compiler {
         let body = self.syntax_tree.child(fn_decl.body);
         let mut fn_context = self.compile_fn(body, &fn_decl.args, fn_decl.return_.clone(), fn_kind)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone())?;
         let compiled_fn = ConstantValue::Function(FunctionBytecode::new(
             bytecode,
             &*fn_decl.name.identifier,
diff --git a/dice-compiler/src/visitor/decl_import.rs b/dice-compiler/src/visitor/decl_import.rs
index 236c333..5f92e32 100644
--- a/dice-compiler/src/visitor/decl_import.rs
+++ b/dice-compiler/src/visitor/decl_import.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt as _};
 use dice_syntax::ImportDecl;
 
 impl NodeVisitor<&ImportDecl> for Compiler {
@@ -11,7 +11,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(false))
+                    .with_span(|| node.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
@@ -34,7 +35,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
             let module_slot = self
                 .context()?
                 .scope_stack()
-                .add_local(module_import.clone(), State::initialized(false))?;
+                .add_local(module_import.clone(), State::initialized(false))
+                .with_span(|| node.span)?;
 
             self.assembler()?.store_local(module_slot as u8, node.span);
         }
diff --git a/dice-compiler/src/visitor/decl_op.rs b/dice-compiler/src/visitor/decl_op.rs
index d8904e4..0dc3681 100644
--- a/dice-compiler/src/visitor/decl_op.rs
+++ b/dice-compiler/src/visitor/decl_op.rs
@@ -28,7 +28,7 @@ impl NodeVisitor<(&OpDecl, OpKind)> for Compiler {
         let name = Compiler::op_name(node);
 
         let upvalues = op_context.upvalues().clone();
-        let bytecode = op_context.finish(self.source.clone());
+        let bytecode = op_context.finish(self.source.clone())?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, uuid::Uuid::new_v4()));
 
         match kind {
diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 087daeb..8e656d3 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -1,6 +1,6 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt as _};
 use dice_syntax::{VarDecl, VarDeclKind};
 
 impl NodeVisitor<&VarDecl> for Compiler {
@@ -19,7 +19,8 @@ impl Compiler {
         let slot = self
             .context()?
             .scope_stack()
-            .add_local(name, State::initialized(var_decl.is_mutable))? as u8;
+            .add_local(name, State::initialized(var_decl.is_mutable))
+            .with_span(|| var_decl.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, var_decl.span => [
@@ -52,7 +53,8 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))
+                    .with_span(|| var_decl.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62572af..8567650 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error},
+    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt as _},
     protocol::class::SELF,
     span::Span,
 };
@@ -137,7 +137,8 @@ impl Compiler {
                     is_mutable: false,
                     is_initialized: true,
                 },
-            )? as u8;
+            );
+            let slot = slot.with_span(|| arg.span)? as u8;
 
             if let Some(type_) = &arg.type_ {
                 emit_bytecode! {
diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..3a5d592 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::FUNCTION_HAS_TOO_MANY_ARGUMENTS, Error};
 use dice_syntax::FnCall;
 
 impl NodeVisitor<&FnCall> for Compiler {
     fn visit(&mut self, node: &FnCall) -> Result<(), Error> {
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span));
+        }
+
         self.visit(node.target)?;
 
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index c9bf69e..ac6ab15 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::Error,
+    error::{Error, ResultExt as _},
     protocol::iterator::{DONE, ITER, NEXT, VALUE},
 };
 use dice_syntax::ForLoop;
@@ -38,7 +38,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
-            .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(for_loop.variable.clone(), State::initialized(false))
+            .with_span(|| for_loop.span)? as u8;
 
         emit_bytecode! {
             context.assembler(), for_loop.span => [
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 3f1499c..9b19591 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -3,7 +3,10 @@ use crate::{
     scope_stack::State,
     visitor::NodeVisitor,
 };
-use dice_core::{error::Error, span::Span};
+use dice_core::{
+    error::{Error, ResultExt as _},
+    span::Span,
+};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
 enum RangeLoopKind {
@@ -37,7 +40,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
-            .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(range_loop.variable.clone(), State::initialized(false))
+            .with_span(|| range_loop.span)? as u8;
 
         // NOTE: Store the start condition and duplicate the end condition, to be consumed by the loop condition.
         // This effectively reverses the order of the end and start conditions on the stack.
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 123789a..b6f3363 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,5 +1,8 @@
 use dice_core::{
-    error::{codes::INVALID_SUPER_CALL, Error},
+    error::{
+        codes::{FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_SUPER_CALL},
+        Error,
+    },
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
@@ -17,6 +20,10 @@ impl NodeVisitor<&SuperCall> for Compiler {
             return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
         }
 
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index 90d05f0..2b52b17 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -15,7 +15,7 @@ impl NodeVisitor<&LitAnonymousFn> for Compiler {
         let body = self.syntax_tree.child(node.body);
         let mut fn_context = self.compile_fn(body, &node.args, node.return_.clone(), FnKind::Function)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone())?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, id));
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..7204051 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_LIST_ITEMS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        if value.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_LIST_ITEMS).with_span(*span));
+        }
+
         for (index, item) in value.iter().enumerate() {
             self.visit_with_temporaries(*item, index)?;
         }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 4f4ee1a..5619256 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,9 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2102";
+pub static TOO_MANY_LIST_ITEMS: ErrorCode = "E2103";
+pub static JUMP_TOO_FAR: ErrorCode = "E2104";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 12068f63638a4de38ca71b65399e3dfb257bc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:25 +0000
Subject: [PATCH 19/25] hook: expose the lexer under cfg(dice_verif)

---
 dice-syntax/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dice-syntax/src/lib.rs b/dice-syntax/src/lib.rs
index 7efb111..bb68687 100644
--- a/dice-syntax/src/lib.rs
+++ b/dice-syntax/src/lib.rs
@@ -1,5 +1,8 @@
 mod ast;
+#[cfg(not(dice_verif))]
 mod lexer;
+#[cfg(dice_verif)]
+pub mod lexer;
 mod parser;
 
 pub use ast::*;
-- 
2.43.0


From adbd080baac3212fb581f85b5dee432f3ab258a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:45 +0000
Subject: [PATCH 20/25] fix: number every line of an error trace with its own
 line

---
 dice-core/src/error/fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dice-core/src/error/fmt.rs b/dice-core/src/error/fmt.rs
index 75fb5e8..fb7f9ec 100644
--- a/dice-core/src/error/fmt.rs
+++ b/dice-core/src/error/fmt.rs
@@ -152,10 +152,12 @@ impl HumanReadableErrorFormatter {
                 }
 
                 for line in trace.source.line_index().lines(trace.span) {
+                    let line_position = trace.source.line_index().position_of(line.start);
+
                     writeln!(
                         buffer,
                         "    {:<4} | {}",
-                        position.line + 1,
+                        line_position.line + 1,
                         &trace.source.source()[line.range()].trim()
                     )?
                 }
-- 
2.43.0


From 3225ec39d955727c7ea12f3312430bdc56ed293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 21/25] fix: the span of an operator's expression covers its
 operands

The syntax tree gave `a + b` the range of `a +` and `-b` the range of `-`, so that a
node's range did not even cover the nodes below it.
---
 dice-syntax/src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 06a4383..da56ac7 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -652,7 +652,7 @@ impl<'a> Parser<'a> {
             operator,
             lhs_expression: lhs,
             rhs_expression: rhs,
-            span: span_start + token.span,
+            span: span_start + self.lexer.current().span,
         });
 
         Ok(self.arena.alloc(node))
@@ -680,7 +680,7 @@ impl<'a> Parser<'a> {
         let node = SyntaxNode::Prefix(Prefix {
             operator,
             expression: child_node_id,
-            span: token.span,
+            span: token.span + self.lexer.current().span,
         });
 
         Ok(self.arena.alloc(node))
-- 
2.43.0


From 75480161f16e92b70e965b4a89de2dd56ccac496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:39 +0000
Subject: [PATCH 22/25] fix: the span of a block begins at its opening brace

It began at the first token inside, yet ended at the closing brace; an empty block was
nothing but its closing brace.
---
 dice-syntax/src/parser/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index da56ac7..c37f64e 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -52,16 +52,16 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
-        let root = self.expression_sequence()?;
+        let span_start = self.lexer.peek()?.span;
+        let root = self.expression_sequence(span_start)?;
         self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
 
-    fn expression_sequence(&mut self) -> ParseResult {
+    fn expression_sequence(&mut self, span_start: Span) -> ParseResult {
         let mut expressions = Vec::new();
         let mut next_token = self.lexer.peek()?;
-        let span_start = next_token.span;
         let mut trailing_expression = None;
 
         while !matches!(next_token.kind, TokenKind::EndOfInput | TokenKind::RightCurly) {
@@ -244,8 +244,8 @@ impl<'a> Parser<'a> {
     }
 
     fn block_expression(&mut self, _: bool) -> ParseResult {
-        self.lexer.consume(TokenKind::LeftCurly)?;
-        let expressions = self.expression_sequence()?;
+        let span_start = self.lexer.consume(TokenKind::LeftCurly)?.span;
+        let expressions = self.expression_sequence(span_start)?;
         self.lexer.consume(TokenKind::RightCurly)?;
 
         Ok(expressions)
-- 
2.43.0


From 68b53f18bba2f69210c759be907ecc0da280b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 23/25] fix: a variable named self doesn't replace the receiver
 of a method or constructor

---
 dice-compiler/src/scope_stack.rs              | 19 ++++++++++++++++---
 dice-compiler/src/visitor/expr_block.rs       |  6 ++----
 dice-compiler/src/visitor/expr_return.rs      | 14 +++++---------
 .../src/visitor/expr_super_access.rs          |  9 +++++++--
 dice-compiler/src/visitor/expr_super_call.rs  |  7 +++----
 5 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 04272cc..a718028 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,6 +1,9 @@
-use dice_core::error::{
-    codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
-    Error,
+use dice_core::{
+    error::{
+        codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
+        Error,
+    },
+    protocol::class::SELF,
 };
 
 #[derive(Clone)]
@@ -167,6 +170,16 @@ impl ScopeStack {
             .find(|var| var.name == name)
     }
 
+    /// Get the slot of the receiver of the current method or constructor, which is the first variable named self. Variables of
+    /// the same name declared in the body shadow the parameter, but don't replace the receiver.
+    pub fn receiver_slot(&self) -> Option<usize> {
+        self.stack
+            .iter()
+            .flat_map(|scope| scope.variables.iter())
+            .find(|var| var.name == SELF)
+            .map(|var| var.slot)
+    }
+
     pub fn top_mut(&mut self) -> Result<&mut ScopeContext, Error> {
         self.stack.last_mut().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 8567650..dc5651e 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,6 +1,5 @@
 use dice_core::{
     error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt as _},
-    protocol::class::SELF,
     span::Span,
 };
 use dice_syntax::{Block, FnArg, SyntaxNode, SyntaxNodeId};
@@ -87,9 +86,8 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
             let local_slot = self
                 .context()?
                 .scope_stack()
-                .local(SELF)
-                .expect("Methods should always have a self.")
-                .slot as u8;
+                .receiver_slot()
+                .expect("Methods should always have a self.") as u8;
 
             emit_bytecode! {
                 self.assembler()?, block.span => [
diff --git a/dice-compiler/src/visitor/expr_return.rs b/dice-compiler/src/visitor/expr_return.rs
index 6153bd9..b493162 100644
--- a/dice-compiler/src/visitor/expr_return.rs
+++ b/dice-compiler/src/visitor/expr_return.rs
@@ -1,9 +1,6 @@
-use dice_core::{
-    error::{
-        codes::{INVALID_RETURN_USAGE, NEW_RETURN_CANNOT_HAVE_EXPRESSION},
-        Error,
-    },
-    protocol::class::SELF,
+use dice_core::error::{
+    codes::{INVALID_RETURN_USAGE, NEW_RETURN_CANNOT_HAVE_EXPRESSION},
+    Error,
 };
 use dice_syntax::Return;
 
@@ -23,9 +20,8 @@ impl NodeVisitor<&Return> for Compiler {
             CompilerKind::Constructor if expr_return.result.is_none() => {
                 let self_slot = context
                     .scope_stack()
-                    .local(SELF)
-                    .expect("The self parameter should always be declared in constructors.")
-                    .slot;
+                    .receiver_slot()
+                    .expect("The self parameter should always be declared in constructors.");
                 self.assembler()?.load_local(self_slot as u8, expr_return.span);
             }
             CompilerKind::Constructor if expr_return.result.is_some() => {
diff --git a/dice-compiler/src/visitor/expr_super_access.rs b/dice-compiler/src/visitor/expr_super_access.rs
index 9768200..5fa7ceb 100644
--- a/dice-compiler/src/visitor/expr_super_access.rs
+++ b/dice-compiler/src/visitor/expr_super_access.rs
@@ -1,6 +1,6 @@
 use dice_core::{
     error::{codes::INVALID_SUPER_CALL, Error},
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperAccess};
 
@@ -29,7 +29,12 @@ impl NodeVisitor<&SuperAccess> for Compiler {
             None => self.visit(&LitIdent::synthesize(SUPER, *span))?,
         }
 
-        self.visit(&LitIdent::synthesize(SELF, *span))?;
+        let self_slot = self
+            .context()?
+            .scope_stack()
+            .receiver_slot()
+            .expect("self should always be declared in methods.") as u8;
+        self.assembler()?.load_local(self_slot, *span);
         self.assembler()?.load_method(&**field, *span)?;
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index b6f3363..c0f79e7 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -3,7 +3,7 @@ use dice_core::{
         codes::{FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_SUPER_CALL},
         Error,
     },
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperCall};
 
@@ -27,9 +27,8 @@ impl NodeVisitor<&SuperCall> for Compiler {
         let local_slot = self
             .context()?
             .scope_stack()
-            .local(SELF)
-            .expect("self should always be declared in constructors.")
-            .slot as u8;
+            .receiver_slot()
+            .expect("self should always be declared in constructors.") as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
-- 
2.43.0


From 9c54a0cbb21891270728c61de28a0a5c92b4565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 24/25] fix: a function's result type isn't shadowed by
 declarations of its body

---
 dice-compiler/src/scope_stack.rs        | 11 +++++++++++
 dice-compiler/src/visitor/expr_block.rs | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index a718028..9e7ca33 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -85,6 +85,9 @@ impl Default for ScopeContext {
     }
 }
 
+/// The depth of the scope that holds the parameters of a function.
+const FUNCTION_SCOPE_DEPTH: usize = 1;
+
 pub struct ScopeStack {
     stack: Vec<ScopeContext>,
     pub slot_count: usize,
@@ -180,6 +183,14 @@ impl ScopeStack {
             .map(|var| var.slot)
     }
 
+    /// Get the slot of a parameter of the current function, regardless of the variables that its body declares.
+    pub fn parameter_slot(&self, name: &str) -> Option<usize> {
+        self.stack
+            .get(FUNCTION_SCOPE_DEPTH)
+            .and_then(|scope| scope.variables.iter().find(|var| var.name == name))
+            .map(|var| var.slot)
+    }
+
     pub fn top_mut(&mut self) -> Result<&mut ScopeContext, Error> {
         self.stack.last_mut().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index dc5651e..557c51e 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -2,7 +2,7 @@ use dice_core::{
     error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt as _},
     span::Span,
 };
-use dice_syntax::{Block, FnArg, SyntaxNode, SyntaxNodeId};
+use dice_syntax::{Block, FnArg, LitIdent, SyntaxNode, SyntaxNodeId};
 
 use crate::{
     compiler::Compiler,
@@ -78,6 +78,8 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
 
         self.context()?.scope_stack().push_scope(ScopeKind::Block, None);
         self.visit_args(&kind, kind.args())?;
+        // NOTE: The body is a scope of its own, so that what's declared in it isn't visible to the function's signature.
+        self.context()?.scope_stack().push_scope(ScopeKind::Block, None);
         self.scan_item_decls(block)?;
         self.visit(block)?;
 
@@ -99,6 +101,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
 
         self.visit_return(block.span)?;
         self.context()?.scope_stack().pop_scope()?;
+        self.context()?.scope_stack().pop_scope()?;
 
         Ok(())
     }
@@ -195,6 +198,19 @@ impl Compiler {
         Ok(())
     }
 
+    /// Load the type of the function's result, which is resolved in the scope of the function's signature.
+    fn visit_return_type(&mut self, LitIdent { identifier: name, span }: &LitIdent) -> Result<(), Error> {
+        if let Some(slot) = self.context()?.scope_stack().parameter_slot(name) {
+            self.assembler()?.load_local(slot as u8, *span);
+        } else if let Some(upvalue) = self.compiler_stack.resolve_upvalue(name.clone(), 0) {
+            self.assembler()?.load_upvalue(upvalue as u8, *span);
+        } else {
+            self.assembler()?.load_global(&**name, *span)?;
+        }
+
+        Ok(())
+    }
+
     /// Return the value on top of the stack, after checking its type and closing the variables of the function.
     pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
         let captured_slots = self.context()?.scope_stack().captured_in_function();
@@ -208,7 +224,7 @@ impl Compiler {
         {
             emit_bytecode! {
                 self.assembler()?, span => [
-                    {self.visit(&return_type.name)?};
+                    {self.visit_return_type(&return_type.name)?};
                     for slot in captured_slots => [
                         CLOSE_UPVALUE slot as u8;
                     ]
-- 
2.43.0


From afc13ce24ade893f22aa8ee5ee30d911e35007bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 25/25] fix: a class without a base derives from the built in
 Any whatever else has that name

---
 dice-compiler/src/visitor/decl_class.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index 5e9c31f..b171ccc 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -12,7 +12,7 @@ use dice_core::{
     },
     tags,
 };
-use dice_syntax::{ClassDecl, FnDecl, LitIdent, OpDecl, SyntaxNode};
+use dice_syntax::{ClassDecl, FnDecl, OpDecl, SyntaxNode};
 
 use crate::{
     compiler::Compiler,
@@ -28,10 +28,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
             self.visit(base)?;
             ClassKind::Derived
         } else {
-            self.visit(&LitIdent {
-                identifier: ANY_CLASS.to_owned(),
-                span: node.span,
-            })?;
+            // NOTE: The program doesn't name this class, so no variable of the program may stand in for it.
+            self.assembler()?.load_global(ANY_CLASS, node.span)?;
             ClassKind::Base
         };
 
-- 
2.43.0

