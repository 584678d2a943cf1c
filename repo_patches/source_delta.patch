From f48c3014ac43462f392d666327f40efc7e7dc42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 01/17] Add auto_enums_verif cfg hook: build the macros as
 plain functions for verification harnesses

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8c21bb..9f3ef73 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -877,6 +877,9 @@ Please be careful if you return another traits with the same name.
 ))]
 #![forbid(unsafe_code)]
 #![allow(clippy::doc_link_with_quotes)]
+// `auto_enums_verif` is set only by external verification harnesses, which build this crate as a
+// normal library and call the two macros as ordinary functions.
+#![allow(unexpected_cfgs)]
 
 #[cfg(all(feature = "coroutine_trait", not(feature = "unstable")))]
 compile_error!(
@@ -905,13 +908,16 @@ mod derive;
 mod enum_derive;
 mod utils;
 
+#[cfg(not(auto_enums_verif))]
 use proc_macro::TokenStream;
+#[cfg(auto_enums_verif)]
+use proc_macro2::TokenStream;
 
 /// An attribute macro like a wrapper of `#[derive]`, implementing
 /// the supported traits and passing unsupported traits to `#[derive]`.
 ///
 /// See the [crate-level documentation](crate) for details.
-#[proc_macro_attribute]
+#[cfg_attr(not(auto_enums_verif), proc_macro_attribute)]
 pub fn enum_derive(args: TokenStream, input: TokenStream) -> TokenStream {
     crate::enum_derive::attribute(args.into(), input.into()).into()
 }
@@ -919,7 +925,7 @@ pub fn enum_derive(args: TokenStream, input: TokenStream) -> TokenStream {
 /// An attribute macro for to allow multiple return types by automatically generated enum.
 ///
 /// See the [crate-level documentation](crate) for details.
-#[proc_macro_attribute]
+#[cfg_attr(not(auto_enums_verif), proc_macro_attribute)]
 pub fn auto_enum(args: TokenStream, input: TokenStream) -> TokenStream {
     crate::auto_enum::attribute(args.into(), input.into()).into()
 }
-- 
2.43.0


From e0fedf970ec83443dc74be98bb3c2784d8c9025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 02/17] fix: do not rewrite return and ? inside async blocks of
 an annotated function

---
 src/auto_enum/visitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..0bd8dc2 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,11 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` operator in async blocks leave only the async block.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From 05a96e4b006c447d16c3518300a200e603cb8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 03/17] fix: wrap breaks in the iterator expression of a for
 loop inside an annotated loop

---
 src/auto_enum/expr.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..976ef13 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime,
+    LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -173,7 +173,17 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
+                Expr::ForLoop(ExprForLoop { expr, body, .. }) => {
+                    // The iterator expression is evaluated outside of the `for` loop.
+                    self.visit_expr_mut(expr);
+                    if self.label.is_some() {
+                        self.nested = true;
+                        self.visit_block_mut(body);
+                        self.nested = tmp;
+                    }
+                    return;
+                }
+                Expr::Loop(_) | Expr::While(_) => {
                     if self.label.is_none() {
                         return;
                     }
-- 
2.43.0


From 228ff6d711a1a72ad22bb239d5970b8ca983a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 04/17] fix: do not derive a required trait twice when several
 listed traits require it

---
 src/enum_derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..b86b22b 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,8 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                // Skip if another trait in the list already requires the same trait.
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 646ac2cb4e8decb31f1dee4a0f4dc263db88de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 05/17] fix: derive a trait named by several impl Trait bounds
 only once, and drop the let type even if the trait is also listed

---
 src/auto_enum/type_analysis.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..9665dee 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,11 +24,17 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
+                    if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        // Skip traits that are already specified or collected.
+                        if !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
+                        {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 96a8db0ed5162d2c280dfeb7a647e724c16fa4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 06/17] fix: derive Error for error::Error, which type_analysis
 already collects

---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 src/lib.rs              | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index b86b22b..35477a3 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
diff --git a/src/lib.rs b/src/lib.rs
index 9f3ef73..f27dc6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,7 +662,7 @@ Note that some traits have aliases.
 
 ### `std::error` *(requires `"std"` crate feature)*
 
-- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
+- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) (alias: `error::Error`) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
 
 ## External libraries
 
-- 
2.43.0


From 531f180a33390701108157a2132d6daa4496ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 07/17] fix: do not wrap breaks that target an inner loop or
 block reusing the label of an annotated loop

---
 src/auto_enum/expr.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 976ef13..4ac4558 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -2,8 +2,8 @@
 
 use syn::{
     Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
-    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime,
-    LocalInit, Macro, Stmt, StmtMacro, Token,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -160,6 +160,11 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => false,
             }
         }
+
+        /// Returns `true` if the label of this loop is shadowed by an inner loop or block.
+        fn is_shadowed(&self, other: Option<&Label>) -> bool {
+            other.map_or(false, |other| self.compare_labels(Some(&other.name)))
+        }
     }
 
     impl VisitMut for LoopVisitor<'_> {
@@ -173,22 +178,23 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::ForLoop(ExprForLoop { expr, body, .. }) => {
+                Expr::ForLoop(ExprForLoop { label, expr, body, .. }) => {
                     // The iterator expression is evaluated outside of the `for` loop.
                     self.visit_expr_mut(expr);
-                    if self.label.is_some() {
+                    if self.label.is_some() && !self.is_shadowed(label.as_ref()) {
                         self.nested = true;
                         self.visit_block_mut(body);
                         self.nested = tmp;
                     }
                     return;
                 }
-                Expr::Loop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
+                    if self.label.is_none() || self.is_shadowed(label.as_ref()) {
                         return;
                     }
                     self.nested = true;
                 }
+                Expr::Block(ExprBlock { label, .. }) if self.is_shadowed(label.as_ref()) => return,
                 // Desugar `break <expr>` into `break Enum::VariantN(<expr>)`.
                 Expr::Break(ExprBreak { label, expr, .. }) => {
                     if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {
-- 
2.43.0


From 54e9984969bbe495c7a7e557834d8ffd5f9beffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 08/17] fix: keep markers, #[nested] branches and returns of a
 function whose traits are all inferred

---
 src/auto_enum/mod.rs     | 12 ++++++++++--
 src/auto_enum/visitor.rs |  9 +++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..323b76b 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -76,7 +76,11 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_nested(expr)
+            {
                 cx.dummy(expr);
                 return;
             }
@@ -215,7 +219,11 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_nested(item)
+            {
                 cx.dummy(item);
                 return;
             }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 0bd8dc2..1451da6 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -431,6 +431,7 @@ pub(super) fn find_nested(node: &mut impl Node) -> bool {
 #[derive(Default)]
 pub(super) struct FnCount {
     pub(super) try_: usize,
+    /// `return` and marker macros
     pub(super) return_: usize,
 }
 
@@ -447,6 +448,14 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
 
             self.scope.check_expr(node);
 
+            if let Expr::Macro(ExprMacro { mac, .. }) = node {
+                if self.cx.is_marker_macro_exact(mac)
+                    && (!self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER)
+                {
+                    self.count.return_ += 1;
+                }
+            }
+
             if !self.scope.closure && !node.any_empty_attr(NEVER) {
                 match node {
                     Expr::Try(ExprTry { expr, .. }) => {
-- 
2.43.0


From 7cf199879e5edea8741f0327fee2de834e09c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 09/17] fix: reject marker names duplicated two or more
 auto_enum scopes up

---
 src/auto_enum/context.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..45490fd 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -1,8 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
-use std::{
-    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, mem, thread,
-};
+use std::{cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread};
 
 use proc_macro2::TokenStream;
 use quote::format_ident;
@@ -128,20 +126,22 @@ impl Context {
     /// Make a new `Context` as a child based on a parent context `self`.
     pub(super) fn make_child(&mut self, span: TokenStream, args: TokenStream) -> Result<Self> {
         debug_assert!(self.has_child);
-        Self::new(
+        let child = Self::new(
             span,
             args,
             false,
-            mem::take(&mut self.markers),
+            self.markers.clone(),
             self.error.borrow_mut().as_mut().unwrap().take(),
-        )
+        )?;
+        // The nodes in the scope of the child are visited until `join_child` is called.
+        self.markers.push(child.current_marker.clone());
+        Ok(child)
     }
 
     /// Merge a child `Context` into a parent context `self`.
-    pub(super) fn join_child(&mut self, mut child: Self) {
-        debug_assert!(self.markers.is_empty());
-        child.markers.pop();
-        mem::swap(&mut self.markers, &mut child.markers);
+    pub(super) fn join_child(&mut self, child: Self) {
+        debug_assert_eq!(self.markers, child.markers);
+        self.markers.pop();
 
         if let Some(message) = child.error.borrow_mut().take().unwrap() {
             self.error(message);
-- 
2.43.0


From 78f61ef499acc75f79ed9ed4609de94bca79c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 10/17] fix: handle annotations and markers on macros in
 statement position, reject auto_enum on other macros

---
 src/auto_enum/mod.rs     |  5 +++++
 src/auto_enum/visitor.rs | 43 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 323b76b..813724b 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -36,6 +36,10 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
 
     match syn::parse2::<Stmt>(input.clone()) {
         Ok(mut stmt) => {
+            match &mut stmt {
+                Stmt::Item(Item::Fn(item)) => visitor::replace_stmt_macros(&mut *item.block),
+                stmt => visitor::replace_stmt_macros(stmt),
+            }
             expand_parent_stmt(&mut cx, &mut stmt);
             cx.check().map(|()| stmt.into_token_stream())
         }
@@ -49,6 +53,7 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
                 cx.check().map(|()| unreachable!())
             }
             Ok(mut expr) => {
+                visitor::replace_stmt_macros(&mut expr);
                 expand_parent_expr(&mut cx, &mut expr, false);
                 cx.check().map(|()| expr.into_token_stream())
             }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 1451da6..6cd9145 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -1,10 +1,12 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
-    Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, Token, parse_quote, token,
+    Arm, Attribute, Block, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
+    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -377,6 +379,43 @@ trait VisitStmt: VisitMut {
     }
 }
 
+// -----------------------------------------------------------------------------
+// StmtMacros
+
+/// Replaces macros in statement position with expressions, so that annotations on them and markers
+/// among them are handled in the same way as on the other expressions.
+pub(super) fn replace_stmt_macros(node: &mut impl Node) {
+    struct StmtMacros;
+
+    impl VisitMut for StmtMacros {
+        fn visit_block_mut(&mut self, node: &mut Block) {
+            // `m! {}` that is not the last statement needs a semicolon as an expression.
+            let len = node.stmts.len();
+            for stmt in node.stmts.iter_mut().take(len.saturating_sub(1)) {
+                if let Stmt::Macro(StmtMacro { semi_token, .. }) = stmt {
+                    semi_token.get_or_insert_with(Default::default);
+                }
+            }
+            visit_mut::visit_block_mut(self, node);
+        }
+
+        fn visit_stmt_mut(&mut self, node: &mut Stmt) {
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token }) = node {
+                let expr = ExprMacro { attrs: mem::take(attrs), mac: mac.clone() };
+                *node = Stmt::Expr(expr.into(), *semi_token);
+            } else {
+                visit_mut::visit_stmt_mut(self, node);
+            }
+        }
+
+        fn visit_item_mut(&mut self, _: &mut Item) {
+            // Do not recurse into nested items.
+        }
+    }
+
+    node.visited(&mut StmtMacros);
+}
+
 // -----------------------------------------------------------------------------
 // FindNested
 
-- 
2.43.0


From 0e762228a0001e5186e02aa73691c04183c6a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:49 +0000
Subject: [PATCH 11/17] fix: omit defaults of generic parameters from generated
 impls

#[enum_derive] on an enum such as `enum E<A, B = A>` copied the default into
the generics of the generated impls, which rustc rejects.
---
 src/enum_derive.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 35477a3..a018183 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -262,8 +262,29 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
     get_alias(s).map_or(false, |x| v.iter().any(|(s, _)| *s == x))
 }
 
+/// Returns the data used to generate implementations for `item`.
+fn impl_data(item: &ItemEnum) -> Data {
+    let mut item = item.clone();
+    // Defaults of generic parameters are not allowed in the generics of `impl`.
+    for param in &mut item.generics.params {
+        match param {
+            GenericParam::Type(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            GenericParam::Const(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            GenericParam::Lifetime(_) => {}
+        }
+    }
+    parse_quote!(#item)
+}
+
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
-    let data = syn::parse2::<Data>(input)?;
+    let mut item: ItemEnum = syn::parse2::<Data>(input)?.into();
+    let data = impl_data(&item);
     let args = syn::parse2::<Args>(args)?.inner;
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
@@ -295,7 +316,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         }
     }
 
-    let mut item = if cx.needs_pin_projection.get() {
+    if cx.needs_pin_projection.get() {
         // If a user creates their own Unpin or Drop implementation, trait implementations with
         // `Pin<&mut self>` receiver can cause unsoundness.
         //
@@ -320,7 +341,6 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
             },
         ));
 
-        let item: ItemEnum = data.into();
         let name = &item.ident;
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
         // Ensure that enum does not implement `Drop`.
@@ -335,10 +355,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
             };
         });
-        item
-    } else {
-        data.into()
-    };
+    }
 
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
-- 
2.43.0


From 5e2e4b19fe2c0c85e47864b9965c3693d34eee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 12/17] fix: derive traits with associated types when a
 concrete field follows a generic one

derive_utils takes associated types from the first field and puts no bounds on
fields whose type contains no type parameters, so `enum E<A> { V0(A), V1(Concrete) }`
failed to type-check while the same enum with the variants swapped compiled.
---
 src/enum_derive.rs | 11 ++++++++++-
 src/utils.rs       | 21 ++++++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index a018183..15cd881 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -1,6 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
-use std::cell::Cell;
+use std::{cell::Cell, mem};
 
 use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
@@ -11,6 +11,8 @@ use syn::{
     parse_quote,
 };
 
+use crate::utils::contains_type_param;
+
 pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
     expand(args, input).unwrap_or_else(Error::into_compile_error)
 }
@@ -279,6 +281,13 @@ fn impl_data(item: &ItemEnum) -> Data {
             GenericParam::Lifetime(_) => {}
         }
     }
+    // Generated impls take associated types from the first field, and have no bounds on the fields
+    // whose type contains no type parameters. So, put such fields first.
+    let (mut variants, others): (Vec<_>, Vec<_>) = mem::take(&mut item.variants)
+        .into_iter()
+        .partition(|v| v.fields.iter().all(|f| !contains_type_param(&item.generics, &f.ty)));
+    variants.extend(others);
+    item.variants = variants.into_iter().collect();
     parse_quote!(#item)
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index aa5c608..036ca39 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,10 +2,12 @@
 
 use std::{iter, mem};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
+use quote::ToTokens as _;
 use syn::{
-    Arm, Attribute, Block, Expr, ExprBlock, ExprCall, ExprPath, ExprTuple, ItemFn, Local, Meta,
-    Path, PathSegment, Stmt, StmtMacro, punctuated::Punctuated, token, visit_mut::VisitMut,
+    Arm, Attribute, Block, Expr, ExprBlock, ExprCall, ExprPath, ExprTuple, Generics, ItemFn, Local,
+    Meta, Path, PathSegment, Stmt, StmtMacro, Type, punctuated::Punctuated, token,
+    visit_mut::VisitMut,
 };
 
 pub(crate) fn path(segments: impl IntoIterator<Item = PathSegment>) -> Path {
@@ -29,6 +31,19 @@ pub(crate) fn expr_call(attrs: Vec<Attribute>, path: Path, arg: Expr) -> Expr {
     })
 }
 
+/// Whether one of the type parameters of `generics` is mentioned in `ty`.
+pub(crate) fn contains_type_param(generics: &Generics, ty: &Type) -> bool {
+    fn visit(generics: &Generics, tokens: TokenStream) -> bool {
+        tokens.into_iter().any(|tt| match tt {
+            TokenTree::Ident(ident) => generics.type_params().any(|p| p.ident == ident),
+            TokenTree::Group(group) => visit(generics, group.stream()),
+            TokenTree::Punct(_) | TokenTree::Literal(_) => false,
+        })
+    }
+
+    visit(generics, ty.to_token_stream())
+}
+
 pub(crate) fn unit() -> Expr {
     Expr::Tuple(ExprTuple {
         attrs: vec![],
-- 
2.43.0


From 951d65a0ba364a0eda9ef59452ff04a4aacfb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 13/17] fix: derive generic traits on enums with concrete
 fields

derive_utils puts no bounds on fields whose type contains no type parameters,
so #[enum_derive(Extend)] on `enum E { V0(Vec<u8>) }` (also AsRef, AsMut, Index,
IndexMut, RangeBounds, and rayon::ParallelExtend) failed to type-check.
---
 src/derive/mod.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/derive/mod.rs b/src/derive/mod.rs
index 82f813a..fad256c 100644
--- a/src/derive/mod.rs
+++ b/src/derive/mod.rs
@@ -8,11 +8,67 @@ pub(crate) mod external;
 pub(crate) mod std;
 pub(crate) mod ty_impls;
 
+use proc_macro2::TokenStream;
+use quote::{ToTokens as _, quote};
+use syn::{Ident, ItemTrait, Path, TraitItem, TypeParamBound, parse_quote};
+
+use crate::utils::contains_type_param;
+
 mod prelude {
-    pub(super) use derive_utils::{EnumData as Data, EnumImpl, derive_trait};
+    pub(super) use derive_utils::{EnumData as Data, EnumImpl};
     pub(super) use proc_macro2::TokenStream;
     pub(super) use quote::{ToTokens as _, format_ident, quote};
     pub(super) use syn::{Result, parse_quote};
 
+    pub(super) use super::derive_trait;
     pub(super) use crate::enum_derive::DeriveContext as Context;
 }
+
+/// `derive_utils::derive_trait`, with bounds also on the fields whose type contains no type
+/// parameters if the trait has generic parameters.
+///
+/// Without them, what such a field implements (e.g., `Extend<u8>`) is not known to be what is being
+/// implemented (e.g., `Extend<__A>`).
+fn derive_trait(
+    data: &derive_utils::EnumData,
+    trait_path: &Path,
+    supertraits_types: Option<Ident>,
+    trait_def: ItemTrait,
+) -> TokenStream {
+    let args = trait_def.generics.type_params().map(|param| param.ident.clone());
+    let args: Vec<_> = args.collect();
+    let assoc_types: Vec<_> = trait_def
+        .items
+        .iter()
+        .filter_map(|item| match item {
+            TraitItem::Type(ty) => Some(ty.ident.clone()),
+            _ => None,
+        })
+        .chain(supertraits_types.clone())
+        .collect();
+    // The trait that has associated types.
+    let assoc_trait = match trait_def.supertraits.first() {
+        Some(TypeParamBound::Trait(supertrait)) if supertraits_types.is_some() => {
+            supertrait.path.to_token_stream()
+        }
+        _ => quote!(#trait_path<#(#args),*>),
+    };
+    let mut impl_ =
+        derive_utils::EnumImpl::from_trait(data, trait_path, supertraits_types, trait_def);
+    if !args.is_empty() {
+        let mut field_types = data.field_types();
+        let fst = field_types.next().unwrap();
+        if !contains_type_param(&data.generics, fst) {
+            impl_.push_where_predicate(parse_quote!(#fst: #trait_path<#(#args),*>));
+        }
+        for ty in field_types.filter(|ty| !contains_type_param(&data.generics, ty)) {
+            if ty.to_token_stream().to_string() == fst.to_token_stream().to_string() {
+                continue;
+            }
+            impl_.push_where_predicate(parse_quote! {
+                #ty: #trait_path<#(#args,)* #(#assoc_types = <#fst as #assoc_trait>::#assoc_types),*>
+            });
+        }
+    }
+    impl_.build()
+}
-- 
2.43.0


From fdf815d04da39a4a23c57820d987bb8364403ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 14/17] fix: do not use the name R for a generic parameter of
 derived Coroutine impls

It conflicted with a generic parameter R of the enum.
---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From 541b3978fd70c688608c438ae0f3c30d1febdd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 15/17] fix: derive pinned traits on enums with concrete fields
 that are not Unpin

The generated `impl Unpin for E where Field: Unpin` is rejected by rustc when
Field is a concrete type that is known not to be Unpin.
---
 src/enum_derive.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 15cd881..57bcf7c 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, GenericParam, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token, WherePredicate,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -341,14 +341,25 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L98
         // TODO: use https://github.com/taiki-e/pin-project/issues/102#issuecomment-540472282's trick.
         // TODO: https://github.com/taiki-e/pin-project/pull/357 is also needed?
-        items.extend(derive_utils::derive_trait(
+        let mut unpin = derive_utils::EnumImpl::from_trait(
             &data,
             &parse_quote!(::core::marker::Unpin),
             None,
             parse_quote! {
                 trait Unpin {}
             },
-        ));
+        )
+        .build_impl();
+        // rustc rejects bounds that are known not to hold (e.g., `PhantomPinned: Unpin`), unless
+        // they are higher-ranked.
+        for predicate in unpin.generics.where_clause.iter_mut().flat_map(|w| &mut w.predicates) {
+            if let WherePredicate::Type(predicate) = predicate {
+                if !contains_type_param(&data.generics, &predicate.bounded_ty) {
+                    predicate.lifetimes.get_or_insert_with(|| parse_quote!(for<'__pin>));
+                }
+            }
+        }
+        unpin.to_tokens(&mut items);
 
         let name = &item.ident;
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
-- 
2.43.0


From 8adc58c930e812285a4be4d27169b2265b96047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:29 +0000
Subject: [PATCH 16/17] fix: do not require Sized to be in scope of derived
 AsRef, AsMut, and RangeBounds

---
 src/derive/core/convert.rs | 4 ++--
 src/derive/core/ops.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..26bc8eb 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
-- 
2.43.0


From 1ff9b52c85712700f3ef285ce3b87b3ab57ec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:29 +0000
Subject: [PATCH 17/17] fix: derive traits with associated types on enums with
 a variant of the same name

---
 src/enum_derive.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 57bcf7c..504313b 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,9 +6,10 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, GenericParam, ItemEnum, Path, Result, Token, WherePredicate,
+    Error, File, GenericParam, Item, ItemEnum, Path, Result, Token, WherePredicate,
     parse::{Parse, ParseStream},
     parse_quote,
+    visit_mut::{self, VisitMut},
 };
 
 use crate::utils::contains_type_param;
@@ -291,6 +292,35 @@ fn impl_data(item: &ItemEnum) -> Data {
     parse_quote!(#item)
 }
 
+/// Allows generated impls to mention associated types that have the same name as a variant.
+fn allow_ambiguous_items(data: &Data, items: TokenStream) -> Result<TokenStream> {
+    struct SelfTypes<'a> {
+        data: &'a Data,
+        found: bool,
+    }
+
+    impl VisitMut for SelfTypes<'_> {
+        fn visit_path_mut(&mut self, node: &mut Path) {
+            if node.segments.len() == 2 && node.segments[0].ident == "Self" {
+                self.found |= self.data.variant_idents().any(|v| *v == node.segments[1].ident);
+            }
+            visit_mut::visit_path_mut(self, node);
+        }
+    }
+
+    let mut file: File = syn::parse2(items)?;
+    for item in &mut file.items {
+        if let Item::Impl(item) = item {
+            let mut visitor = SelfTypes { data, found: false };
+            visitor.visit_item_impl_mut(item);
+            if visitor.found {
+                item.attrs.push(parse_quote!(#[allow(ambiguous_associated_items)]));
+            }
+        }
+    }
+    Ok(file.into_token_stream())
+}
+
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let mut item: ItemEnum = syn::parse2::<Data>(input)?.into();
     let data = impl_data(&item);
@@ -382,6 +412,6 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     }
 
     let mut item = item.into_token_stream();
-    item.extend(items);
+    item.extend(allow_ambiguous_items(&data, items)?);
     Ok(item)
 }
-- 
2.43.0

