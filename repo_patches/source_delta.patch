From 77f949eaebf13e35cdbe79cdc2eba5db40c54a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 01/21] fix: parse `static mut` declarations

The `mut` keyword was recorded but never consumed, so every `static mut`
(documented as supported by `Constant`) panicked.
---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..88d3837 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let ident = ident.clone();
+            tokens.next(); // consume 'mut'
+            Some(ident)
         }
         _ => None,
     };
-- 
2.43.0


From 84742fab5da02de3e9e7d0c448bfe134f94a9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 02/21] fix: accept `<` and `>` operators in const and static
 values

Values such as `1 << 4` or `A > B` were scanned as types, with `<` and `>`
counted as brackets, and panicked.
---
 src/parse_impl.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 88d3837..49b31b0 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,16 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // The value is an expression: unlike in types, `<` and `>` may be operators, so they
+    // can't be counted as brackets. A `;` outside of a group always ends the expression.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+            None => panic!("cannot parse const/static: expected `;` after value"),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From c99096b70ce067ed1debbec28571f2e03f01587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 03/21] fix: accept `->` in the bounds of generic params

The `>` of `F: Fn() -> T` was taken for the end of the param list.
---
 src/parse_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..35ddec6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -237,6 +237,8 @@ pub(crate) fn consume_stuff_until(
                 bracket_count -= 1;
                 false
             }
+            // Tip of a `->` arrow: neither a closing bracket nor a separator
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => false,
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
             Some(token) if predicate(token) && bracket_count == 0 => {
                 predicate_met = true;
-- 
2.43.0


From 84927387b6cb047c137480cec56004b797275efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 04/21] fix: parse `self: Type` params as typed params

The documentation of `FnReceiverParam` says they are recognized as
`FnTypedParam`, but they panicked.
---
 src/parse_fn.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..d21ca3f 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -84,17 +84,24 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_mut = consume_ident(&mut tokens, "mut");
         let tk_self = consume_ident(&mut tokens, "self");
 
-        let param = if let Some(tk_self) = tk_self {
+        // `self: Type` is a typed param
+        let has_type = matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ':'
+        );
+
+        let param = if let (Some(tk_self), false) = (&tk_self, has_type) {
             FnParam::Receiver(FnReceiverParam {
                 attributes,
                 tk_ref,
                 lifetime,
                 tk_mut,
-                tk_self,
+                tk_self: tk_self.clone(),
             })
         } else {
             // TODO - handle non-ident argument names
-            let param_name = parse_any_ident(&mut tokens, "fn param name");
+            let param_name =
+                tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
             let ty_tokens = consume_field_type(&mut tokens);
-- 
2.43.0


From 33f8b59de40eca56d52314c813cbf4e8cfba6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 05/21] fix: don't drop the `&` of reference patterns in fn
 params

`fn f(&x: &T)` was parsed as `fn f(x: &T)`. Like the other patterns
which can't be represented, it is now rejected.
---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index d21ca3f..2b60a10 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -100,6 +100,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         } else {
             // TODO - handle non-ident argument names
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: reference patterns are not supported");
+            }
             let param_name =
                 tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-- 
2.43.0


From 03cbff1d2b324b643a86831abc5e777ffed07f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 06/21] fix: don't take the `crate` of a `crate::Type` tuple
 field for a visibility

`struct S(crate::T);` was parsed as a field of type `::T` with visibility
`crate`.
---
 src/parse_utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 35ddec6..c977947 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -203,10 +203,21 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            // `crate::Type` is the start of a path
+            let before_start = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+            match tokens.peek() {
+                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => {
+                    *tokens = before_start;
+                    None
+                }
+                _ => Some(VisMarker {
+                    tk_token1: crate_token,
+                    tk_token2: None,
+                }),
+            }
+        }
         _ => None,
     }
 }
-- 
2.43.0


From fd341edc411530fab9acb732b84b7f1d2a234f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 07/21] fix: don't take a parenthesized type after `pub` for a
 visibility restriction

`struct S(pub (A, B));` panicked because `(A, B)` was taken for the
restriction of `pub`.
---
 src/parse_utils.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index c977947..27b80cf 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -184,6 +184,24 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// True for the `(crate)` in `pub(crate)`, false for the type in `struct Tuple(pub (A, B));`.
+fn is_vis_restriction(group: &Group) -> bool {
+    if group.delimiter() != Delimiter::Parenthesis {
+        return false;
+    }
+
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -191,12 +209,10 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
-                    Some(VisMarker {
-                        tk_token1: pub_token,
-                        tk_token2: Some(tokens.next().unwrap()),
-                    })
-                }
+                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
+                    tk_token1: pub_token,
+                    tk_token2: Some(tokens.next().unwrap()),
+                }),
                 _ => Some(VisMarker {
                     tk_token1: pub_token,
                     tk_token2: None,
-- 
2.43.0


From 6d172150d3d59fed006f51a955eb879d3d2f82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:01 +0000
Subject: [PATCH 08/21] fix: recognize turbofish generic args that come from
 source code

In tokens that come from source code rather than from `quote!`, both colons
of `::<` are joint, and `as_path()` returned None for `Vec::<T>`.
---
 src/parse_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 27b80cf..a1b6189 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -315,7 +315,8 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                // Note: in source code, the second colon of a `::<` turbofish is joint too
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 01720909cf82f7baef10679fe2c879b8c2430d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:01 +0000
Subject: [PATCH 09/21] fix: don't split where predicates at a path separator

`T::Item: Clone` was split into `T` and `: Item: Clone`.
---
 src/parse_type.rs    | 31 +++++++++++++++++++++++--------
 src/types_edition.rs |  9 +--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..6f90e9f 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -212,6 +212,28 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
     })
 }
 
+/// Consumes the `T::Item` in `T::Item: Clone`, stops before the colon.
+pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        ));
+
+        // Path separators are part of the left side
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.map(TokenTree::Punct)),
+            None => break,
+        }
+    }
+    left_side
+}
+
 pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause> {
     let where_token = consume_ident(tokens, "where")?;
 
@@ -227,14 +249,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..b1c3e17 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_type::consume_where_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From e69553aa8b322ec767b7854a43c5d391089e196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:01 +0000
Subject: [PATCH 10/21] fix: parse macro items with square brackets

`foo![...];` panicked, although it is as valid as `foo!(...);`.
---
 src/parse_fn.rs | 7 ++++---
 src/types.rs    | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 2b60a10..60723bc 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -285,15 +285,16 @@ fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Op
     let tk_bang = consume_punct(tokens, '!')?;
     let tk_declared_name = consume_any_ident(tokens);
 
-    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
+    let (needs_semicolon, macro_body) = match tokens.next().expect("unexpected end of macro") {
         TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Bracket => (true, group),
         TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
-        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
+        _ => panic!("cannot parse macro; missing `{{}}`, `()` or `[]` group"),
     };
 
     let inner_tokens = macro_body.stream().into_iter().collect();
 
-    let tk_semicolon = if is_paren {
+    let tk_semicolon = if needs_semicolon {
         Some(parse_punct(tokens, ';', "macro invocation semicolon"))
     } else {
         None
diff --git a/src/types.rs b/src/types.rs
index f60024d..a139a9d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -772,11 +772,11 @@ pub struct Macro {
     ///
     /// In `macro_rules! my_macro { ... }`, this is `my_macro`.
     pub tk_declared_name: Option<Ident>,
-    /// The `{}` or `()` group around the macro invocation.
+    /// The `{}`, `()` or `[]` group around the macro invocation.
     pub tk_braces_or_parens: GroupSpan,
     /// Unparsed tokens in the macro invocation.
     pub inner_tokens: Vec<TokenTree>,
-    /// The `;` token, in case `()` is used.
+    /// The `;` token, in case `()` or `[]` is used.
     pub tk_semicolon: Option<Punct>,
 }
 
-- 
2.43.0


From aae0d10351a1144eb900591aeee68010cff5b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:01 +0000
Subject: [PATCH 11/21] fix: don't drop tokens after the value of an attribute

`#[foo(a) b]` isn't valid Rust, but it was silently parsed as `#[foo(a)]`.
---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a1b6189..8178892 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next(); // consume group
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!("cannot parse attribute: expected `]`, found {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From 343acd9c224abe51c00e823ccff2183ba52d228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:02 +0000
Subject: [PATCH 12/21] fix: don't swallow a semicolon after the braces of a
 struct

It isn't part of the struct: it was consumed but left out of the struct's
tokens, and `parse_item` didn't report it as a leftover token.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..3cb5a95 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -121,7 +121,11 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            // A semicolon after `struct Foo {}` isn't part of the struct
+            let semicolon = match struct_fields {
+                Fields::Named(_) => None,
+                Fields::Unit | Fields::Tuple(_) => consume_punct(tokens, ';'),
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From 94adbd8282b932536a21b60cd4ac42ce47d9d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:02 +0000
Subject: [PATCH 13/21] fix: don't drop the visibility of a macro invocation

`pub foo!{}` isn't valid Rust, but it was silently parsed as `foo!{}`.
Reject it, as is already done for macros in impl blocks.
---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 3cb5a95..b59c3df 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -12,6 +12,7 @@ use crate::parse_utils::{consume_outer_attributes, consume_punct, consume_vis_ma
 use crate::types::{Enum, Fields, GroupSpan, Item, Struct, Union};
 use proc_macro2::token_stream::IntoIter;
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use quote::ToTokens;
 use std::iter::Peekable;
 
 /// Parses the token stream of an item declaration.
@@ -227,6 +228,13 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
+                if let Some(vis_marker) = vis_marker {
+                    panic!(
+                        "unsupported visibility marker `{}`",
+                        vis_marker.to_token_stream()
+                    );
+                }
+
                 Item::Macro(macro_)
             } else {
                 panic!(
-- 
2.43.0


From 2468df8e59cbe266160f96ce400d52ed247ae878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:02 +0000
Subject: [PATCH 14/21] fix: return an error for complex enum discriminants
 inside of modules

They are documented to be reported as an error, but panicked when the enum
was the member of a module.
---
 src/parse.rs      |  4 ++--
 src/parse_impl.rs | 20 +++++++++++---------
 src/parse_mod.rs  | 10 +++++-----
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b59c3df..3e6e525 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -191,7 +191,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             })
         }
         Some(TokenTree::Ident(keyword)) if keyword == "mod" => {
-            let mod_decl = parse_mod(tokens, attributes, vis_marker);
+            let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
             Item::Module(mod_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
@@ -224,7 +224,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 attributes,
                 vis_marker,
                 "fn/type/const/static/extern/extern crate",
-            )
+            )?
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 49b31b0..aaf4a0c 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
 use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
 use crate::parse_mod::parse_mod;
@@ -131,8 +132,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
     context: &str, // for panic
-) -> Item {
-    if let Some(TokenTree::Ident(ident)) = tokens.peek() {
+) -> Result<Item, Error> {
+    let item = if let Some(TokenTree::Ident(ident)) = tokens.peek() {
         let keyword = ident.to_string();
         match keyword.as_str() {
             "type" => {
@@ -161,7 +162,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
-                        let mod_decl = parse_mod(tokens, attributes, vis_marker);
+                        let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
                         Item::Module(mod_decl)
                     }
                     Err(NotFunction::ExternBlock) => {
@@ -189,7 +190,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
         }
     } else {
         panic!("unsupported {} element: {:?}", context, tokens.peek())
-    }
+    };
+    Ok(item)
 }
 
 pub(crate) fn parse_impl_body(
@@ -213,17 +215,17 @@ pub(crate) fn parse_impl_body(
             vis_marker,
             "impl",
         ) {
-            Item::Function(function) => ImplMember::AssocFunction(function),
-            Item::Constant(const_) if const_.tk_const_or_static == "const" => {
+            Ok(Item::Function(function)) => ImplMember::AssocFunction(function),
+            Ok(Item::Constant(const_)) if const_.tk_const_or_static == "const" => {
                 // `const` can appear in impl/trait blocks.
                 ImplMember::AssocConstant(const_)
             }
-            Item::Constant(static_) if allow_static => {
+            Ok(Item::Constant(static_)) if allow_static => {
                 // `static` can appear in `extern "abi" {}` blocks.
                 ImplMember::AssocConstant(static_)
             }
-            Item::TypeAlias(ty_def) => ImplMember::AssocType(ty_def),
-            Item::Macro(macro_) => ImplMember::Macro(macro_),
+            Ok(Item::TypeAlias(ty_def)) => ImplMember::AssocType(ty_def),
+            Ok(Item::Macro(macro_)) => ImplMember::Macro(macro_),
             _ => panic!("unsupported impl item `{:?}`", tokens.peek()),
         };
 
diff --git a/src/parse_mod.rs b/src/parse_mod.rs
index a121b41..648d610 100644
--- a/src/parse_mod.rs
+++ b/src/parse_mod.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse::consume_item;
 use crate::parse_type::consume_item_name;
 use crate::parse_utils::{
@@ -13,7 +14,7 @@ pub(crate) fn parse_mod(
     tokens: &mut Peekable<IntoIter>,
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
-) -> Module {
+) -> Result<Module, Error> {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_mod = parse_ident(tokens, "mod", "module declaration");
     let module_name = consume_item_name(tokens);
@@ -41,8 +42,7 @@ pub(crate) fn parse_mod(
             if tokens.peek().is_none() {
                 break;
             }
-            let item =
-                consume_item(&mut tokens).unwrap_or_else(|e| panic!("declaration in mod: {}", e));
+            let item = consume_item(&mut tokens)?;
             mod_members.push(item);
         }
         members = mod_members;
@@ -52,7 +52,7 @@ pub(crate) fn parse_mod(
         members = vec![];
     }
 
-    Module {
+    Ok(Module {
         attributes,
         vis_marker,
         tk_unsafe,
@@ -62,7 +62,7 @@ pub(crate) fn parse_mod(
         tk_braces,
         inner_attributes,
         members,
-    }
+    })
 }
 
 pub(crate) fn parse_use_declaration(
-- 
2.43.0


From dc4c86c8f74936b6fd2323a5567c7b5824398978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:41 +0000
Subject: [PATCH 15/21] fix: don't take `dyn ::Trait` for a path

`TypeExpr::as_path()` returned a path with a `dyn` (or `impl`) segment for
`dyn ::Trait`.
---
 src/parse_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 8178892..ea35830 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -341,6 +341,8 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
+            // `dyn ::Trait` and `impl ::Trait` aren't paths
+            Some(TokenTree::Ident(ident)) if ident == "dyn" || ident == "impl" => return None,
             Some(TokenTree::Ident(ident)) => ident.clone(),
             _ => return None, // end of tokens OR not a path
         };
-- 
2.43.0


From b1cc6a0d99a567c56eb05e785b39ca57dcf81d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 16/21] fix: don't split an impl header at the `for` of a
 `for<'a>` binder

---
 src/parse_impl.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index aaf4a0c..292f944 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -235,20 +235,39 @@ pub(crate) fn parse_impl_body(
     (GroupSpan::new(&token_group), inner_attributes, body_items)
 }
 
+/// Whether the next tokens are the `for<'a>` of a higher-ranked type, as opposed to the `for`
+/// of `impl Trait for <T as OtherTrait>::Type`.
+fn is_lifetime_binder(tokens: &TokenIter) -> bool {
+    let mut tokens = tokens.clone();
+    matches!(tokens.next(), Some(TokenTree::Ident(ident)) if ident == "for")
+        && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == '<')
+        && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == '\'')
+}
+
 pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
     let impl_generic_params = consume_generic_params(tokens);
-    let trait_or_self_ty = consume_stuff_until(
-        tokens,
-        |tk| match tk {
-            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
-            TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
-            _ => false,
-        },
-        true,
-    );
+    let mut trait_or_self_ty = Vec::new();
+    loop {
+        trait_or_self_ty.extend(consume_stuff_until(
+            tokens,
+            |tk| match tk {
+                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
+                TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
+                _ => false,
+            },
+            true,
+        ));
+
+        // The `for` of a `for<'a>` binder is part of the type
+        if is_lifetime_binder(tokens) {
+            trait_or_self_ty.extend(tokens.next());
+        } else {
+            break;
+        }
+    }
 
     let (tk_for, trait_ty, self_ty) = if let Some(tk_for) = consume_ident(tokens, "for") {
         let self_ty = consume_stuff_until(
-- 
2.43.0


From c8aef80977bad3a64b778c83d0912eae9dc789ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 17/21] fix: don't drop the visibility of an impl block

`pub impl A {}` isn't valid Rust, but it was silently parsed as
`impl A {}`. Reject it, as is already done for macros.
---
 src/parse.rs      |  2 +-
 src/parse_impl.rs | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3e6e525..7c3387c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -199,7 +199,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
-            let impl_decl = parse_impl(tokens, attributes);
+            let impl_decl = parse_impl(tokens, attributes, vis_marker);
             Item::Impl(impl_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "static" => {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 292f944..3dc30ab 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -158,7 +158,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
-                        let impl_decl = parse_impl(tokens, attributes);
+                        let impl_decl = parse_impl(tokens, attributes, vis_marker);
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
@@ -244,7 +244,18 @@ fn is_lifetime_binder(tokens: &TokenIter) -> bool {
         && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == '\'')
 }
 
-pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
+pub(crate) fn parse_impl(
+    tokens: &mut TokenIter,
+    attributes: Vec<Attribute>,
+    vis_marker: Option<VisMarker>,
+) -> Impl {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
-- 
2.43.0


From b3137c265fd7ff63e72e8ccd4f5220e6792a0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:03 +0000
Subject: [PATCH 18/21] fix: reject missing commas between enum variants and
 between fn params

They were silently added: `enum E { A {} B }` printed as `enum E { A {}, B }`
and `fn f(&self x: T)` as `fn f(&self, x: T)`.
---
 src/parse_fn.rs   | 7 +++++++
 src/parse_type.rs | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 60723bc..6619397 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -77,6 +77,13 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         if tokens.peek().is_none() {
             break;
         }
+        if fields.skip_last {
+            panic!(
+                "cannot parse fn params: expected ',', found token {:?}",
+                tokens.peek()
+            );
+        }
+
         let attributes = consume_outer_attributes(&mut tokens);
 
         let tk_ref = consume_punct(&mut tokens, '&');
diff --git a/src/parse_type.rs b/src/parse_type.rs
index 6f90e9f..43ff633 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -414,6 +414,12 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
         if tokens.peek().is_none() {
             break;
         }
+        if variants.skip_last {
+            panic!(
+                "cannot parse enum variants: expected ',', found token {:?}",
+                tokens.peek()
+            );
+        }
 
         let attributes = consume_outer_attributes(&mut tokens);
         let vis_marker = consume_vis_marker(&mut tokens);
-- 
2.43.0


From 30a825cbe17edd247a11021caa303b4152f5271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:41 +0000
Subject: [PATCH 19/21] fix: don't drop stray commas in generic args

---
 src/parse_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 43ff633..27e1617 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -192,13 +192,14 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
+
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-- 
2.43.0


From bac38c4af04224931fd9bb6db57141dff7b9a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:40 +0000
Subject: [PATCH 20/21] fix: reject path patterns in fn params instead of
 misreading them

`fn f(a::B(x): T)` was parsed as a param named `a`, of type
`: B(x): T`. Like the other patterns which can't be represented, it is
now rejected.
---
 src/parse_fn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 6619397..74c2ef1 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -3,8 +3,8 @@ use crate::parse_type::{
     consume_where_clause,
 };
 use crate::parse_utils::{
-    consume_any_ident, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, parse_any_ident, parse_punct,
+    consume_any_ident, consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    consume_punct, consume_stuff_until, parse_any_ident, parse_punct,
 };
 use crate::punctuated::Punctuated;
 use crate::types::{
@@ -112,6 +112,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             }
             let param_name =
                 tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
+            if consume_colon2(&mut tokens).is_some() {
+                panic!("cannot parse fn params: path patterns are not supported");
+            }
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
             let ty_tokens = consume_field_type(&mut tokens);
-- 
2.43.0


From 2dff7d746a9497d4eb1c032c60c31bddfe904d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 21/21] fix: recognize empty `for<>` binders in impl headers

The header of `impl for<> fn() {}` was split at its `for`, as those of
`impl for<'a> fn(&'a u8) {}` were before b1cc6a0.
---
 src/parse_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 3dc30ab..d17946b 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -241,7 +241,7 @@ fn is_lifetime_binder(tokens: &TokenIter) -> bool {
     let mut tokens = tokens.clone();
     matches!(tokens.next(), Some(TokenTree::Ident(ident)) if ident == "for")
         && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == '<')
-        && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == '\'')
+        && matches!(tokens.next(), Some(TokenTree::Punct(punct)) if matches!(punct.as_char(), '\'' | '>'))
 }
 
 pub(crate) fn parse_impl(
-- 
2.43.0

