From d9439d6bc372aef24a149e117f7bc7e2f1777d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 01/14] fix: expand SVG and MathML elements to the modules that
 exist in tachys

---
 leptos-mview-core/src/expand.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..858f7c3 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -86,8 +86,16 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
     let tag_path = match element.tag() {
         Tag::Component(..) => return None,
         Tag::Html(ident) => quote! { ::leptos::tachys::html::element::#ident() },
-        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::element::#ident() },
-        Tag::Math(ident) => quote! { ::leptos::tachys::math::element::#ident() },
+        Tag::Svg(ident) => {
+            // the `<use>` element can be written as both `use` and `use_`
+            let ident = if ident.unraw() == "use_" {
+                syn::Ident::new_raw("use", ident.span())
+            } else {
+                ident.clone()
+            };
+            quote! { ::leptos::tachys::svg::#ident() }
+        }
+        Tag::Math(ident) => quote! { ::leptos::tachys::mathml::#ident() },
         Tag::WebComponent(ident) => {
             let ident = ident.to_lit_str();
             let custom = syn::Ident::new("custom", ident.span());
-- 
2.43.0


From 93ca16207facfc4ea9af1c14cbeb56cc2884bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 02/14] fix: expand `prop:` on components to the `prop`
 function

---
 leptos-mview-core/src/expand/subroutines.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..8a98164 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,12 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            // to avoid spanning the directive to the module
+            let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir_unspanned(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 1f5606daf8c2e0516cc02d8f7dbc70511a33379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 03/14] fix: report modifiers on component directives instead
 of ignoring them

---
 leptos-mview-core/src/expand/subroutines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 8a98164..38a1703 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -375,6 +375,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            emit_error_if_modifier(directive.modifier.as_ref());
             // to avoid spanning the directive to the module
             let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
             quote! {
@@ -382,6 +383,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "attr" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
@@ -413,6 +415,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         "prop" => {
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            emit_error_if_modifier(directive.modifier.as_ref());
             // to avoid spanning the directive to the module
             let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
             quote! {
-- 
2.43.0


From a7927234b5e1f54b9f1978698139163ed9138e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 04/14] fix: emit an error instead of panicking when an element
 is used as a slot

---
 leptos-mview-core/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 858f7c3..b0ee8da 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -352,7 +352,8 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(el.tag().span(), "slots must be a struct, not an element");
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From d6fe923478662ff846fc9e96f9b315e4b0d8389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 05/14] fix: reject slots inside of elements instead of
 dropping them

---
 leptos-mview-core/src/expand.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index b0ee8da..1f158e8 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -121,6 +121,16 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(slot) = element
+        .children()
+        .and_then(|children| children.slot_children().next())
+    {
+        emit_error!(
+            slot.tag().span(),
+            "slots should be inside a parent that supports slots"
+        );
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From 7042ba1cc8ad6273c2f93796b591dc6ec328b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 06/14] fix: reject closure arguments on elements instead of
 dropping them

---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 1f158e8..d3ae90d 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -121,6 +121,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are not supported on elements"
+        );
+    }
+
     if let Some(slot) = element
         .children()
         .and_then(|children| children.slot_children().next())
-- 
2.43.0


From 5f49275b5f315dd9b6d52fc3450e7ca01b139e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 07/14] fix: expand slots in source order instead of hash map
 order

---
 leptos-mview-core/src/expand.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index d3ae90d..c718490 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -362,11 +360,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // group by name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion. Kept in order of first appearance so
+    // that the expansion is deterministic.
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             emit_error!(el.tag().span(), "slots must be a struct, not an element");
@@ -381,10 +380,14 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        if let Some((_, slots)) = slot_children
+            .iter_mut()
+            .find(|(name, _)| *name == slot_name)
+        {
+            slots.push(slot_component);
+        } else {
+            slot_children.push((slot_name, vec![slot_component]));
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From f212736bbd12df787ca4787698c0c609462873b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 08/14] fix: emit an error for words that cannot be raw
 identifiers instead of panicking

---
 leptos-mview-core/src/ast/ident.rs | 18 ++++++++++++++++--
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..944d4bb 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -95,14 +95,28 @@ impl KebabIdent {
     /// covers the full ident on nightly. See [`KebabIdent::span`] for more
     /// details.
     ///
-    /// The ident will also be a raw identifier.
+    /// The ident will also be a raw identifier. An error is emitted if it can't
+    /// be one.
     pub fn to_snake_ident(&self) -> syn::Ident {
         let snake_string = self.repr().replace('-', "_");
         // This will always be valid as the first 'section' must be a `-` or rust ident,
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        new_raw_or_emit(&snake_string, self.span())
+    }
+}
+
+/// Constructs a raw identifier, or emits an error if `ident` is one of the few
+/// words that cannot be a raw identifier.
+///
+/// `ident` must otherwise be a valid identifier.
+pub fn new_raw_or_emit(ident: &str, span: Span) -> syn::Ident {
+    if matches!(ident, "_" | "self" | "Self" | "super" | "crate") {
+        emit_error!(span, "`{}` cannot be used as an identifier here", ident);
+        syn::Ident::new("__invalid_identifier_found", span)
+    } else {
+        syn::Ident::new_raw(ident, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index c718490..267a2d0 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -10,7 +10,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    new_raw_or_emit, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -394,7 +394,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = new_raw_or_emit(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 2a56af08c01aa6187f76e0a6a9b4073325a9aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 09/14] fix: join multiple id selectors on elements into one
 attribute

---
 leptos-mview-core/src/expand/subroutines.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 38a1703..5177bf4 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -14,6 +14,7 @@ use crate::{
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
     expand::{children_fragment_tokens, emit_error_if_modifier},
+    span,
 };
 
 ////////////////////////////////////////////////////////////////
@@ -121,7 +122,7 @@ impl From<&str> for AttributeKind {
 ///////////////////////////////////////////////////////////
 
 /// Converts element class/id selector shorthands into a series of `.classes`
-/// and `.id` calls.
+/// calls and an `.id` call.
 pub(super) fn xml_selectors_tokens(selectors: &SelectorShorthands) -> TokenStream {
     let (classes, ids): (Vec<_>, Vec<_>) = selectors
         .iter()
@@ -133,13 +134,20 @@ pub(super) fn xml_selectors_tokens(selectors: &SelectorShorthands) -> TokenStrea
         quote! { .#method((#class_name, true)) }
     });
 
-    let id_methods = ids.iter().map(|id| {
-        let method = syn::Ident::new("id", id.prefix().span());
-        let id_name = id.ident().to_str_colored();
-        quote! { .#method(#id_name) }
+    // all the ids need to be collected together
+    // as multiple `.id` calls creates multiple `id=...` attributes on the element
+    let id_method = ids.first().map(|first| {
+        let method = syn::Ident::new("id", first.prefix().span());
+        let dummy_items = span::color_all(ids.iter().flat_map(|id| id.ident().spans()));
+        let joined_ids = ids
+            .iter()
+            .map(|id| id.ident().repr())
+            .collect::<Vec<_>>()
+            .join(" ");
+        quote! { .#method({#(#dummy_items)* #joined_ids}) }
     });
 
-    quote! { #(#class_methods)* #(#id_methods)* }
+    quote! { #(#class_methods)* #id_method }
 }
 
 pub(super) fn xml_kv_attribute_tokens(attr: &KvAttr, element_tag: TagKind) -> TokenStream {
-- 
2.43.0


From a25cbcf96ccc82f4eb325b71b7886e652264991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:39 +0000
Subject: [PATCH 10/14] fix: nest children into tuples when there are more than
 leptos supports in one

---
 leptos-mview-core/src/expand.rs             |  1 +
 leptos-mview-core/src/expand/subroutines.rs |  8 +++++++-
 leptos-mview-core/src/expand/utils.rs       | 22 +++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 267a2d0..5c243b6 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -45,6 +45,7 @@ pub fn children_fragment_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
     span: Span,
 ) -> TokenStream {
+    let children = nest_children(children);
     quote_spanned! { span=>
         ::leptos::prelude::View::new((
             #( #children, )*
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 5177bf4..abf7b8c 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -13,7 +13,7 @@ use crate::{
         },
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
-    expand::{children_fragment_tokens, emit_error_if_modifier},
+    expand::{children_fragment_tokens, emit_error_if_modifier, nest_children, MAX_TUPLE_LEN},
     span,
 };
 
@@ -242,6 +242,12 @@ pub(super) fn xml_spread_tokens(attr: &SpreadAttr) -> TokenStream {
 pub(super) fn xml_child_methods_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
 ) -> TokenStream {
+    let children = children.collect::<Vec<_>>();
+    if children.len() > MAX_TUPLE_LEN {
+        let nested = nest_children(children.into_iter());
+        return quote! { .child((#(#nested,)*)) };
+    }
+
     let mut ts = TokenStream::new();
     for child in children {
         let child_method = syn::Ident::new("child", child.span());
diff --git a/leptos-mview-core/src/expand/utils.rs b/leptos-mview-core/src/expand/utils.rs
index f253448..31f4068 100644
--- a/leptos-mview-core/src/expand/utils.rs
+++ b/leptos-mview-core/src/expand/utils.rs
@@ -1,6 +1,10 @@
+use proc_macro2::TokenStream;
 use proc_macro_error2::{abort, emit_error};
+use quote::{quote, ToTokens};
 use syn::{parse_quote, spanned::Spanned};
 
+use crate::ast::NodeChild;
+
 #[allow(clippy::doc_markdown)]
 // just doing a manual implementation as theres only one need for this (slots).
 // Use the `paste` crate if more are needed in the future.
@@ -46,6 +50,24 @@ pub fn turbofishify(mut path: syn::Path) -> syn::Path {
     path
 }
 
+/// The most items that leptos supports in one tuple of views.
+pub const MAX_TUPLE_LEN: usize = 26;
+
+/// Groups children into nested tuples, so that there are no more than the
+/// maximum number of views leptos supports.
+pub fn nest_children<'a>(children: impl Iterator<Item = &'a NodeChild>) -> Vec<TokenStream> {
+    let mut tokens = children
+        .map(ToTokens::to_token_stream)
+        .collect::<Vec<_>>();
+    while tokens.len() > MAX_TUPLE_LEN {
+        tokens = tokens
+            .chunks(MAX_TUPLE_LEN)
+            .map(|chunk| quote! { (#(#chunk,)*) })
+            .collect();
+    }
+    tokens
+}
+
 #[cfg(test)]
 mod tests {
     use quote::{quote, ToTokens};
-- 
2.43.0


From fb3cf116da574a0e658e469047d5f8299544a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:41 +0000
Subject: [PATCH 11/14] fix: pass slots nested in a slot to the outer slot
 instead of dropping them

---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 5c243b6..735d5f8 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -305,6 +305,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From a184d3c81617c232a8b5375238cf397874e46920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:43 +0000
Subject: [PATCH 12/14] fix: accept component paths with a leading `::`

---
 leptos-mview-core/src/ast/children.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..a27564e 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,8 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        // components can be paths with a leading `::`
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0


From 985699c88a6a28658d0d6a7b67c056cfb3c81385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 13/14] fix: report every misplaced slot, next to the other
 errors

---
 leptos-mview-core/src/expand.rs | 15 +++++++--------
 leptos-mview-core/src/lib.rs    | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 735d5f8..4867bad 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -127,14 +127,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         );
     }
 
-    if let Some(slot) = element
-        .children()
-        .and_then(|children| children.slot_children().next())
-    {
-        emit_error!(
-            slot.tag().span(),
-            "slots should be inside a parent that supports slots"
-        );
+    if let Some(children) = element.children() {
+        for slot in children.slot_children() {
+            emit_error!(
+                slot.tag().span(),
+                "slots should be inside a parent that supports slots"
+            );
+        }
     }
 
     let children = element
diff --git a/leptos-mview-core/src/lib.rs b/leptos-mview-core/src/lib.rs
index 11abed9..efe4970 100644
--- a/leptos-mview-core/src/lib.rs
+++ b/leptos-mview-core/src/lib.rs
@@ -14,7 +14,7 @@ mod span;
 
 use ast::Child;
 use proc_macro2::{Span, TokenStream};
-use proc_macro_error2::abort;
+use proc_macro_error2::emit_error;
 use quote::quote;
 use syn::spanned::Spanned;
 
@@ -40,19 +40,22 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
             Child::Node(node) => quote! {
                 { #[allow(unused_braces)] #node }
             },
-            Child::Slot(slot, _) => abort!(
-                slot.span(),
-                "slots should be inside a parent that supports slots"
-            ),
+            Child::Slot(slot, _) => {
+                emit_error!(
+                    slot.span(),
+                    "slots should be inside a parent that supports slots"
+                );
+                quote! { () }
+            }
         }
     } else {
         // look for any slots
-        if let Some(slot) = children.slot_children().next() {
-            abort!(
+        for slot in children.slot_children() {
+            emit_error!(
                 slot.tag().span(),
                 "slots should be inside a parent that supports slots"
             );
-        };
+        }
 
         let fragment = children_fragment_tokens(children.element_children(), Span::call_site());
         quote! {
-- 
2.43.0


From 2100cdb0176c10686337b59c84febabef616874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 14/14] fix: reject suffixes on string literals used as
 directive names

---
 leptos-mview-core/src/ast/ident.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index 944d4bb..fbba1cf 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -232,6 +232,10 @@ impl KebabIdentOrStr {
 impl Parse for KebabIdentOrStr {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         if let Some(str) = rollback_err(input, |input| <syn::LitStr as Parse>::parse(input)) {
+            // the compiler would not see the suffix if only the value is used
+            if !str.suffix().is_empty() {
+                emit_error!(str.span(), "suffixes on string literals are invalid");
+            }
             Ok(Self::Str(str))
         } else {
             Ok(Self::KebabIdent(KebabIdent::parse(input)?))
-- 
2.43.0

