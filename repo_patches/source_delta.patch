From aec50b6f49606d5fdc4a5e2e3d481a6ce6cc9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 01/10] fix: drop all initialized elements when mapping an
 array fails

The guard cast its slice of initialized elements to a pointer to a single
element, so it leaked all but the first one and dropped an uninitialized
element when none had been mapped yet.
---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From c2da9dcb50d59b0e107a3aaaf17fef6a6954d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 02/10] fix: map one-element tuples to one-element tuples

---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From 96e08aabbb95a447c1bbd787bc5419dfcf56819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 03/10] fix: reserve raw identifiers under their plain spelling

---
 funcmap_derive/src/ident_collector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index cdffcd3..f8e9980 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -3,6 +3,7 @@
 use std::collections::HashSet;
 
 use proc_macro2::{Ident, Span};
+use syn::ext::IdentExt;
 use syn::visit::Visit;
 
 /// Collects unique identifiers for use in generated code
@@ -83,7 +84,8 @@ impl VisitingIdentCollector {
 
 impl Visit<'_> for VisitingIdentCollector {
     fn visit_ident(&mut self, ident: &Ident) {
-        self.0.idents.insert(ident.to_string());
+        // `r#A` and `A` are the same identifier
+        self.0.idents.insert(ident.unraw().to_string());
     }
 }
 
-- 
2.43.0


From 542bfd6e533b72600233e540a620b73e9249d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 04/10] fix: treat raw and plain spellings of an identifier as
 the same

---
 funcmap_derive/src/derive.rs  |  7 +++++--
 funcmap_derive/src/input.rs   |  6 +++---
 funcmap_derive/src/opts.rs    | 11 ++++++++---
 funcmap_derive/src/syn_ext.rs |  5 +++--
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 1d8014b..53155c7 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -165,8 +165,11 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             {
                 let predicate = match predicate.clone().without_attrs() {
                     WherePredicate::Type(predicate_type)
-                        if predicate_type.bounded_ty
-                            == mapped_type_param.type_param.ident.clone().into_type() =>
+                        if predicate_type
+                            .bounded_ty
+                            .clone()
+                            .subs_type(&mapped_type_param.type_param.ident, &src_type_ident)
+                            == src_type_ident.clone().into_type() =>
                     {
                         WherePredicate::Type(predicate_type.without_maybe_bounds())
                     }
diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index cf436b4..f54f087 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -13,8 +13,8 @@ use std::{collections::HashSet, iter};
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::{
-    visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, GenericParam,
-    Generics, Path, Token, Type, TypeParam, Variant,
+    ext::IdentExt, visit::Visit, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field,
+    GenericParam, Generics, Path, Token, Type, TypeParam, Variant,
 };
 
 /// Input to a `funcmap` derive macro
@@ -155,7 +155,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
             .filter_map(|(marker_idx, (param_idx, param))| match param {
                 GenericParam::Type(type_param)
                     if mapped_type_param_idents.is_empty()
-                        || mapped_type_param_idents.contains(&type_param.ident) =>
+                        || mapped_type_param_idents.contains(&type_param.ident.unraw()) =>
                 {
                     Some(MappedTypeParam {
                         param_idx,
diff --git a/funcmap_derive/src/opts.rs b/funcmap_derive/src/opts.rs
index e633d27..c21fa7c 100755
--- a/funcmap_derive/src/opts.rs
+++ b/funcmap_derive/src/opts.rs
@@ -10,6 +10,7 @@ use indexmap::IndexSet;
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use syn::{
+    ext::IdentExt,
     parenthesized,
     parse::{Parse, ParseStream, Parser},
     punctuated::Punctuated,
@@ -197,7 +198,7 @@ pub(crate) enum Param {
     /// A lifetime parameter
     Lifetime(Lifetime),
 
-    /// A type or const parameter
+    /// A type or const parameter, without any `r#` prefix
     TypeOrConst(Ident),
 }
 
@@ -206,7 +207,11 @@ impl Parse for Param {
         input
             .parse::<Lifetime>()
             .map(Self::Lifetime)
-            .or_else(|_| input.parse::<Ident>().map(Self::TypeOrConst))
+            .or_else(|_| {
+                input
+                    .parse::<Ident>()
+                    .map(|ident| Self::TypeOrConst(ident.unraw()))
+            })
             .map_err(|_| input.error("expected name of generic parameter"))
     }
 }
@@ -230,7 +235,7 @@ impl PartialEq<GenericParam> for Param {
                 Self::TypeOrConst(l),
                 GenericParam::Type(TypeParam { ident: r, .. })
                 | GenericParam::Const(ConstParam { ident: r, .. }),
-            ) => l == r,
+            ) => *l == r.unraw(),
             _ => false,
         }
     }
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 0ee8b5a..323d461 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -2,6 +2,7 @@
 
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::fold::{self, Fold};
 use syn::punctuated::Punctuated;
 use syn::visit::{self, Visit};
@@ -60,7 +61,7 @@ impl<'ast> Visit<'ast> for DependencyOnTypeVisitor<'ast, '_> {
         match ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         self.dependency = Some(ident);
                     }
                     _ => visit::visit_type(self, ty),
@@ -118,7 +119,7 @@ impl Fold for SubsTypeFolder<'_> {
         match &mut ty {
             Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                 match path.segments.first_mut() {
-                    Some(PathSegment { ident, .. }) if ident == self.type_ident => {
+                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                         *ident = self.subs_ident.clone();
                     }
                     _ => (),
-- 
2.43.0


From 6e641083aa063fc9141b0ee23a31ae351b6a7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 05/10] fix: support types passed to macro_rules macros

---
 funcmap_derive/src/map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3b618f9..62c4ac0 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -11,7 +11,7 @@ use quote::{quote, ToTokens};
 use syn::TypeParen;
 use syn::{
     parse_quote, punctuated::Pair, AngleBracketedGenericArguments, GenericArgument, Index, Path,
-    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeParam, TypePath,
+    PathArguments, PathSegment, QSelf, Type, TypeArray, TypeGroup, TypeParam, TypePath,
 };
 
 /// Configuration of a mapping for a given type
@@ -119,6 +119,10 @@ impl<'ast> Mapper<'ast> {
 
             Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
 
+            // an invisible group around a type that was passed to a
+            // `macro_rules!` macro as `$ty:ty`
+            Type::Group(TypeGroup { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
+
             Type::Path(type_path) => {
                 let TypePath {
                     qself,
-- 
2.43.0


From 760be6be94d7fa42a56835d004bdda6ad552c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 06/10] fix: support enums with a variant named Output

---
 funcmap_derive/src/derive.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 53155c7..7e4c678 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -15,6 +15,7 @@ use crate::syn_ext::{
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
     DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam, TypeParamBound,
@@ -92,6 +93,14 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
         }
     };
 
+    // `Self::Output` is ambiguous for an enum with a variant named `Output`
+    let is_output_ambiguous = input.variants.iter().any(|variant| {
+        variant
+            .variant_ident
+            .iter()
+            .any(|ident| ident.unraw() == OUTPUT_TYPE_IDENT)
+    });
+
     let impls: Vec<_> = input
         .mapped_type_params
         .into_iter()
@@ -242,6 +251,10 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 }
 
                 let (pat_path, output_path) = match variant_ident {
+                    Some(variant_ident) if is_output_ambiguous => (
+                        quote!(#ident::#variant_ident),
+                        quote!(#ident::#variant_ident),
+                    ),
                     Some(ident) => (
                         quote!(Self::#ident),
                         quote!(Self::#OUTPUT_TYPE_IDENT::#ident),
@@ -257,6 +270,20 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
             let impl_where_clause = unique_predicates.into_where_clause();
             let marker_idx = mapped_type_param.marker_idx;
 
+            let output_type = if is_output_ambiguous {
+                let trait_ident = derivable.trait_ident();
+
+                quote! {
+                    <Self as #crate_path::#trait_ident<
+                        #src_type_ident,
+                        #dst_type_ident,
+                        #crate_path::#MARKER_TYPE_IDENT<#marker_idx>
+                    >>::#OUTPUT_TYPE_IDENT
+                }
+            } else {
+                quote!(Self::#OUTPUT_TYPE_IDENT)
+            };
+
             result_builder.err_or(match derivable {
                 Derivable::Standard => quote! {
                     #attrs
@@ -274,7 +301,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         fn #FN_IDENT<#fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> Self::#OUTPUT_TYPE_IDENT
+                        ) -> #output_type
                         where
                             #fn_type_ident: ::core::ops::FnMut(#src_type_ident) -> #dst_type_ident
                         {
@@ -300,7 +327,7 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                         fn #FALLIBLE_FN_IDENT<#err_type_ident, #fn_type_ident>(
                             self,
                             mut #fn_var_ident: #fn_type_ident
-                        ) -> ::core::result::Result<Self::#OUTPUT_TYPE_IDENT, #err_type_ident>
+                        ) -> ::core::result::Result<#output_type, #err_type_ident>
                         where
                             #fn_type_ident:
                                 ::core::ops::FnMut(
-- 
2.43.0


From 8bce5263048297910da1ab0c37b52afb218f2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 07/10] fix: import Box and Vec in impls_alloc so that the
 alloc feature builds without std

---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0


From a4bf64894a13d366e31803fa8a9965f93cf44904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 08/10] fix: derive for types with a maybe unsized parameter in
 the last field

Where the type of the last field is sized by assumption only, the compiler does
not conclude that the whole type is, so require that of both types.
---
 funcmap_derive/src/derive.rs     | 27 ++++++++++++++++++++++++---
 funcmap_derive/src/predicates.rs |  8 ++++++++
 funcmap_derive/src/syn_ext.rs    | 19 +++++++++++++++++++
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/funcmap_derive/src/derive.rs b/funcmap_derive/src/derive.rs
index 7e4c678..df4ae37 100644
--- a/funcmap_derive/src/derive.rs
+++ b/funcmap_derive/src/derive.rs
@@ -10,7 +10,8 @@ use crate::map::Mapping;
 use crate::predicates::{UniquePredicates, UniqueTypeBounds};
 use crate::result::{self, Error, IteratorExt, ResultExt};
 use crate::syn_ext::{
-    IntoGenericArgument, IntoType, SubsType, WithoutAttrs, WithoutDefault, WithoutMaybeBounds,
+    IntoGenericArgument, IntoType, IsMaybeBound, SubsType, WithoutAttrs, WithoutDefault,
+    WithoutMaybeBounds,
 };
 
 use proc_macro2::{Ident, Span, TokenStream};
@@ -18,8 +19,8 @@ use quote::{format_ident, quote, quote_spanned};
 use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
-    DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam, TypeParamBound,
-    WherePredicate,
+    parse_quote, DeriveInput, GenericArgument, GenericParam, Member, Token, TypeParam,
+    TypeParamBound, WherePredicate,
 };
 
 /// Generates an implementation of `FuncMap` or `TryFuncMap` for a given item
@@ -267,6 +268,26 @@ pub(crate) fn try_derive(item: TokenStream, derivable: Derivable) -> Result<Toke
                 });
             }
 
+            // If a type parameter may be unsized, the fields being sized does not
+            // tell the compiler that the type itself is, so that needs a bound
+            let is_maybe_unsized = impl_params.iter().any(|param| match param {
+                GenericParam::Type(type_param) => {
+                    type_param.bounds.iter().any(IsMaybeBound::is_maybe_bound)
+                }
+                _ => false,
+            }) || unique_predicates.has_maybe_bounds();
+
+            if is_maybe_unsized {
+                for args in [
+                    src_args.clone().collect::<Vec<_>>(),
+                    dst_args.clone().collect::<Vec<_>>(),
+                ] {
+                    unique_predicates
+                        .add(parse_quote!(#ident<#(#args),*>: ::core::marker::Sized))
+                        .add_err_to(&mut result_builder);
+                }
+            }
+
             let impl_where_clause = unique_predicates.into_where_clause();
             let marker_idx = mapped_type_param.marker_idx;
 
diff --git a/funcmap_derive/src/predicates.rs b/funcmap_derive/src/predicates.rs
index 73048b9..44d8a4e 100644
--- a/funcmap_derive/src/predicates.rs
+++ b/funcmap_derive/src/predicates.rs
@@ -1,6 +1,7 @@
 //! Types dealing with type and lifetime predicates
 
 use crate::result::Error;
+use crate::syn_ext::IsMaybeBound;
 
 use indexmap::{IndexMap, IndexSet};
 use syn::{
@@ -120,6 +121,13 @@ impl UniquePredicates {
         Ok(())
     }
 
+    /// Returns whether any of the predicates has a maybe bound
+    pub(crate) fn has_maybe_bounds(&self) -> bool {
+        self.for_types
+            .values()
+            .any(|bounds| bounds.0.iter().any(IsMaybeBound::is_maybe_bound))
+    }
+
     /// Turns this set into an iterator of predicates
     pub(crate) fn into_iter(self) -> impl Iterator<Item = WherePredicate> {
         let for_lifetimes = self.for_lifetimes.into_iter().filter_map(|(lhs, rhs)| {
diff --git a/funcmap_derive/src/syn_ext.rs b/funcmap_derive/src/syn_ext.rs
index 323d461..f267161 100644
--- a/funcmap_derive/src/syn_ext.rs
+++ b/funcmap_derive/src/syn_ext.rs
@@ -309,6 +309,25 @@ impl WithoutDefault for TypeParam {
     }
 }
 
+/// Extension trait for checking whether a bound is a maybe bound (e.g.
+/// `?Sized`)
+pub(crate) trait IsMaybeBound {
+    /// Checks whether `self` is a maybe bound
+    fn is_maybe_bound(&self) -> bool;
+}
+
+impl IsMaybeBound for TypeParamBound {
+    fn is_maybe_bound(&self) -> bool {
+        matches!(
+            self,
+            TypeParamBound::Trait(TraitBound {
+                modifier: TraitBoundModifier::Maybe(..),
+                ..
+            })
+        )
+    }
+}
+
 /// Extension trait for removing bounds such as `?Sized` from an AST node
 pub(crate) trait WithoutMaybeBounds {
     /// Returns `self` without maybe bounds
-- 
2.43.0


From fd6a149d037100801879b8b7e8ed406738a4c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 09/10] fix: reserve identifiers occurring within macro tokens

---
 funcmap_derive/src/ident_collector.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/funcmap_derive/src/ident_collector.rs b/funcmap_derive/src/ident_collector.rs
index f8e9980..e6e8e40 100644
--- a/funcmap_derive/src/ident_collector.rs
+++ b/funcmap_derive/src/ident_collector.rs
@@ -2,9 +2,10 @@
 
 use std::collections::HashSet;
 
-use proc_macro2::{Ident, Span};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use syn::ext::IdentExt;
-use syn::visit::Visit;
+use syn::visit::{self, Visit};
+use syn::Macro;
 
 /// Collects unique identifiers for use in generated code
 #[derive(Debug, Default)]
@@ -87,6 +88,23 @@ impl Visit<'_> for VisitingIdentCollector {
         // `r#A` and `A` are the same identifier
         self.0.idents.insert(ident.unraw().to_string());
     }
+
+    fn visit_macro(&mut self, mac: &Macro) {
+        // the tokens passed to a macro may end up in its expansion, so
+        // identifiers occurring there can be captured as well
+        visit_token_stream(self, &mac.tokens);
+        visit::visit_macro(self, mac);
+    }
+}
+
+fn visit_token_stream(collector: &mut VisitingIdentCollector, tokens: &TokenStream) {
+    for token in tokens.clone() {
+        match token {
+            TokenTree::Ident(ident) => collector.visit_ident(&ident),
+            TokenTree::Group(group) => visit_token_stream(collector, &group.stream()),
+            TokenTree::Punct(_) | TokenTree::Literal(_) => {}
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 836bb1b82ddcccd7e410f1425f21a2f703b89b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 10/10] fix: reserve identifiers of the crate path option

---
 funcmap_derive/src/input.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/funcmap_derive/src/input.rs b/funcmap_derive/src/input.rs
index f54f087..4e85362 100644
--- a/funcmap_derive/src/input.rs
+++ b/funcmap_derive/src/input.rs
@@ -94,14 +94,15 @@ impl TryFrom<DeriveInput> for FuncMapInput {
     type Error = Error;
 
     fn try_from(derive_input: DeriveInput) -> Result<Self, Self::Error> {
-        let ident_collector = {
-            let mut ident_collector = IdentCollector::new_visiting();
-            ident_collector.visit_derive_input(&derive_input);
-            ident_collector.into_reserved()
-        };
+        let mut ident_collector = IdentCollector::new_visiting();
+        ident_collector.visit_derive_input(&derive_input);
 
         let opts: FuncMapOpts = derive_input.attrs.try_into()?;
 
+        if let Some(crate_path) = &opts.crate_path {
+            ident_collector.visit_path(crate_path);
+        }
+
         let meta = FuncMapMeta {
             crate_path: opts.crate_path.unwrap_or_else(|| {
                 let path = CRATE_IDENT.into();
@@ -112,7 +113,7 @@ impl TryFrom<DeriveInput> for FuncMapInput {
                 }
             }),
 
-            ident_collector,
+            ident_collector: ident_collector.into_reserved(),
         };
 
         let mut mapped_type_param_idents = HashSet::new();
-- 
2.43.0

