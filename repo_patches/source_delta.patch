From 0e29f3dc5a93291400fd89b440d166ecf0497eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 01/15] fix: OrdinalMap::contains_key returned true for absent
 keys

After the first insertion every slot exists, so testing for the slot
rather than for the value in it reported every key as present.
---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From 5c4e4a686dfaa902068d692adc4c5f1d035ce1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 02/15] fix: char::from_ordinal accepted numbers above u32::MAX

The number was truncated to 32 bits, so for example 1 << 32 was
converted to U+0800 instead of None.
---
 ordinal-map/src/ordinal/impls/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..b760f59 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -18,7 +18,7 @@ impl Ordinal for char {
         if ordinal < SURROGATE_START as usize {
             char::from_u32(ordinal as u32)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From e54798424f43adda74af48bf2a0e0d9973dd3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 03/15] fix: OrdinalSet64::all overflowed for types with
 exactly 64 values

The shift by 64 panicked in debug builds and produced the empty set in
release builds.
---
 ordinal-map/src/set/set64.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..bd13f24 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,11 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: if T::ORDINAL_SIZE == u64::BITS as usize {
+                u64::MAX
+            } else {
+                (1 << T::ORDINAL_SIZE) - 1
+            },
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From c476f3a764fabe96d2e660a2992444493070d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 04/15] fix: single-word sets of types without values panicked
 in debug builds

OrdinalSet and OrdinalSet64 keep one word even when the element type has
no values, which the debug assertion in OrdinalSetRef::new rejected, so
iterating or formatting such a set panicked.
---
 ordinal-map/src/set/set_ref.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set_ref.rs b/ordinal-map/src/set/set_ref.rs
index 5913072..4f73267 100644
--- a/ordinal-map/src/set/set_ref.rs
+++ b/ordinal-map/src/set/set_ref.rs
@@ -19,7 +19,8 @@ impl<'a, T: Ordinal> OrdinalSetRef<'a, T> {
 
     #[inline]
     pub(crate) fn new(words: &'a [u64]) -> Self {
-        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>());
+        // Sets stored in a single word have one word even when `T` has no values.
+        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>().max(1));
         OrdinalSetRef {
             words,
             _phantom: PhantomData,
-- 
2.43.0


From 494fcb81359ffde50a190f6932dd9112c05d740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 05/15] fix: size_hint of total::IntoIterArray was not exact

The iterator implements ExactSizeIterator but inherited the default
(0, None) size hint, so adapters that compute the length from the hint
(skip, take, zip, ...) panicked in len().
---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From de46abb65fb21b77c13cb7d07ebef169c9de58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 06/15] fix: OrdinalTotalArrayMap::from_array accepted a wrong
 size parameter

All other constructors reject S != K::ORDINAL_SIZE at compile time.
---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0


From 689b41480789b23fa00e257f64205abefd1c69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 07/15] fix: derive(Ordinal) failed to compile for fields named
 rem

The generated from_ordinal kept its remainder in a variable that a field
of the same name shadowed.
---
 ordinal-map-derive/src/ordinal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..251e140 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -267,24 +267,27 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Field variables are named after the fields, so this name must not clash with them.
+    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
+        if #rem != 0 {
             return None
         }
     });
-- 
2.43.0


From 1ecdbcb69e19214f8e466b121b29d440e83db442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 08/15] fix: derive(Ordinal) failed to compile where None was
 shadowed

For example next to a glob import of an enum with a None variant; the
rest of the generated code already uses full paths.
---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 251e140..b80985f 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -72,7 +72,7 @@ fn check_zero_size() -> syn::Stmt {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
         if Self::ORDINAL_SIZE == 0 {
-            return None;
+            return std::option::Option::None;
         }
     }
 }
@@ -288,7 +288,7 @@ fn struct_from_ordinal<'a>(
     }
     stmts.push(syn::parse_quote_spanned! { span =>
         if #rem != 0 {
-            return None
+            return std::option::Option::None
         }
     });
     let build = constructor(
-- 
2.43.0


From cba94a60ec2da0f8bc4b927e08b7676b12534436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 09/15] fix: ordinals of types with too many values wrapped in
 release builds

Computing the ordinal of a Result, Either or array did not evaluate
ORDINAL_SIZE, so a type with more than usize::MAX values compiled and its
ordinals wrapped around silently: Result<NonZeroU64, bool>::Err(true) got
the ordinal of Ok(1). Force the compile-time check as the derived
implementations do, and make Option fail loudly.
---
 ordinal-map/src/ordinal/impls/array.rs  | 1 +
 ordinal-map/src/ordinal/impls/either.rs | 1 +
 ordinal-map/src/ordinal/impls/std.rs    | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/array.rs b/ordinal-map/src/ordinal/impls/array.rs
index d3e554a..c0e9ff0 100644
--- a/ordinal-map/src/ordinal/impls/array.rs
+++ b/ordinal-map/src/ordinal/impls/array.rs
@@ -13,6 +13,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     };
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         let mut r = 0usize;
         for v in self {
             r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
diff --git a/ordinal-map/src/ordinal/impls/either.rs b/ordinal-map/src/ordinal/impls/either.rs
index 6c8289f..1d46e5b 100644
--- a/ordinal-map/src/ordinal/impls/either.rs
+++ b/ordinal-map/src/ordinal/impls/either.rs
@@ -8,6 +8,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     const ORDINAL_SIZE: usize = Result::<A, B>::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Either::Left(a) => a.ordinal(),
             Either::Right(b) => A::ORDINAL_SIZE + b.ordinal(),
diff --git a/ordinal-map/src/ordinal/impls/std.rs b/ordinal-map/src/ordinal/impls/std.rs
index 022364a..0ef5f00 100644
--- a/ordinal-map/src/ordinal/impls/std.rs
+++ b/ordinal-map/src/ordinal/impls/std.rs
@@ -8,7 +8,7 @@ impl<A: Ordinal> Ordinal for Option<A> {
     fn ordinal(&self) -> usize {
         match self {
             None => 0,
-            Some(a) => a.ordinal() + 1,
+            Some(a) => a.ordinal().checked_add(1).unwrap(),
         }
     }
 
@@ -25,6 +25,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Ok(a) => a.ordinal(),
             Err(b) => A::ORDINAL_SIZE + b.ordinal(),
-- 
2.43.0


From 3bbd07fea5a0088c6859da216ce452f826b70d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 10/15] fix: derive(Ordinal) failed to compile for a variant
 named ORDINAL_SIZE

---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index b80985f..689c049 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -63,7 +63,7 @@ pub(crate) fn derive_ordinal(
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
-        let _check_overflow = Self::ORDINAL_SIZE;
+        let _check_overflow = <Self as ordinal_map::Ordinal>::ORDINAL_SIZE;
     }
 }
 
@@ -71,7 +71,7 @@ fn check_zero_size() -> syn::Stmt {
     syn::parse_quote! {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
-        if Self::ORDINAL_SIZE == 0 {
+        if <Self as ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
             return std::option::Option::None;
         }
     }
-- 
2.43.0


From 1089404f825cf85f826e7dfb606056829030adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 11/15] fix: derive(Ordinal) failed to compile for structs
 assembled by macro_rules

---
 ordinal-map-derive/src/ordinal.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 689c049..3b11094 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -40,13 +40,14 @@ pub(crate) fn derive_ordinal(
 
     let check_overflow = check_overflow();
     let check_zero_size = check_zero_size();
+    let self_token = self_token();
 
     Ok(syn::parse_quote_spanned! { span =>
         #[allow(clippy::all)]
         impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics #where_clause {
             const ORDINAL_SIZE: usize = #size;
 
-            fn ordinal(&self) -> usize {
+            fn ordinal(&#self_token) -> usize {
                 #check_overflow
                 #index_expr
             }
@@ -60,6 +61,12 @@ pub(crate) fn derive_ordinal(
     })
 }
 
+/// `self` is hygienic, so its every use must have the same span as the `self` parameter.
+/// Spans of parts of the input may differ when the input comes from `macro_rules!`.
+fn self_token() -> syn::Token![self] {
+    syn::Token![self](proc_macro2::Span::call_site())
+}
+
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
@@ -307,11 +314,12 @@ fn struct_from_ordinal<'a>(
 
 impl StructGen {
     fn field_ref_exprs(&self) -> impl Iterator<Item = syn::Expr> + '_ {
-        self.s.fields.iter().enumerate().map(|(i, f)| {
+        let self_token = self_token();
+        self.s.fields.iter().enumerate().map(move |(i, f)| {
             let i = syn::Index::from(i);
             match &f.ident {
-                Some(ident) => syn::parse_quote_spanned! { ident.span() => &self.#ident },
-                None => syn::parse_quote_spanned! { f.span() => &self.#i },
+                Some(ident) => syn::parse_quote_spanned! { ident.span() => &#self_token.#ident },
+                None => syn::parse_quote_spanned! { f.span() => &#self_token.#i },
             }
         })
     }
@@ -429,9 +437,10 @@ impl EnumGen {
                 }
             })
         }
+        let self_token = self_token();
         Ok(SizeExpr::Syn(syn::parse_quote_spanned! {
             self.e.enum_token.span =>
-            match self {
+            match #self_token {
                 #( #arms, )*
             }
         }))
-- 
2.43.0


From 452471757db296df1effe41ad950be6a3bd5594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 12/15] fix: derive(Ordinal) failed to compile for fields named
 like a constant in scope

---
 ordinal-map-derive/src/ordinal.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 3b11094..02ab3d6 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -9,7 +9,7 @@ pub(crate) fn derive_ordinal(
 
     let ident = input.ident;
 
-    let from_ordinal_ordinal_var = format_ident!("ordinal");
+    let from_ordinal_ordinal_var = format_ident!("__ordinal");
 
     let (size, index_expr, from_index_expr) = match input.data {
         syn::Data::Struct(s) => {
@@ -84,11 +84,17 @@ fn check_zero_size() -> syn::Stmt {
     }
 }
 
+// Names of local variables are not taken from the input:
+// a field may be named like a constant in scope, and a binding cannot shadow a constant.
 fn field_vars(fields: &syn::Fields) -> impl Iterator<Item = syn::Ident> + '_ {
-    fields.iter().enumerate().map(|(i, f)| match &f.ident {
-        Some(ident) => ident.clone(),
-        None => syn::Ident::new(&format!("f{}", i), f.span()),
-    })
+    fields
+        .iter()
+        .enumerate()
+        .map(|(i, _)| format_ident!("__ordinal_f{}", i))
+}
+
+fn field_names(fields: &syn::Fields) -> impl Iterator<Item = &syn::Ident> {
+    fields.iter().filter_map(|f| f.ident.as_ref())
 }
 
 fn field_types(fields: &syn::Fields) -> impl Iterator<Item = &syn::Type> {
@@ -274,8 +280,7 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
-    // Field variables are named after the fields, so this name must not clash with them.
-    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+    let rem = format_ident!("__ordinal_rem");
 
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
@@ -361,9 +366,10 @@ impl StructGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let names = field_names(&self.s.fields);
                     syn::parse_quote_spanned! { self.s.struct_token.span =>
                         Self {
-                            #( #field_vars: #exprs, )*
+                            #( #names: #exprs, )*
                         }
                     }
                 }
@@ -415,9 +421,10 @@ impl EnumGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let names = field_names(&variant.fields);
                     syn::parse_quote_spanned! {
                         variant.span() =>
-                        Self::#variant_name { #( #vars ),* }
+                        Self::#variant_name { #( #names: #vars ),* }
                     }
                 }
             };
@@ -470,8 +477,9 @@ impl EnumGen {
                         }
                     }
                     syn::Fields::Named(_) => {
+                        let names = field_names(&variant.fields);
                         syn::parse_quote_spanned! { variant.span() =>
-                            Self::#variant_name { #( #exprs ),* }
+                            Self::#variant_name { #( #names: #exprs ),* }
                         }
                     }
                 },
-- 
2.43.0


From cb7dca9a2f5f8d7d8d729e749dbe55d916f92a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 13/15] fix: OrdinalArraySet::default accepted a wrong size
 parameter

---
 ordinal-map/src/set/array.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ordinal-map/src/set/array.rs b/ordinal-map/src/set/array.rs
index b591890..5fef85f 100644
--- a/ordinal-map/src/set/array.rs
+++ b/ordinal-map/src/set/array.rs
@@ -45,7 +45,10 @@ impl<T: Ordinal, const S: usize> OrdinalArraySet<T, S> {
     #[inline]
     pub fn new() -> Self {
         const { Self::ASSERT };
-        OrdinalArraySet::default()
+        OrdinalArraySet {
+            words: [0; S],
+            _phantom: PhantomData,
+        }
     }
 
     #[inline]
@@ -73,13 +76,10 @@ impl<T: Ordinal, const S: usize> OrdinalArraySet<T, S> {
     }
 }
 
-impl<T, const S: usize> Default for OrdinalArraySet<T, S> {
+impl<T: Ordinal, const S: usize> Default for OrdinalArraySet<T, S> {
     #[inline]
     fn default() -> Self {
-        OrdinalArraySet {
-            words: [0; S],
-            _phantom: PhantomData,
-        }
+        OrdinalArraySet::new()
     }
 }
 
-- 
2.43.0


From fbad6357505cdae18360d84675e446f1da0e9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 14/15] fix: format the keys of a map with values of any type

Keys was Debug only when the values were of type (), and Values and
ValuesMut asked the keys to be Debug although only values are shown.
---
 ordinal-map/src/map/iter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ordinal-map/src/map/iter.rs b/ordinal-map/src/map/iter.rs
index 106a4df..ddf7771 100644
--- a/ordinal-map/src/map/iter.rs
+++ b/ordinal-map/src/map/iter.rs
@@ -162,7 +162,7 @@ impl<'a, K: Ordinal, V> Clone for Keys<'a, K, V> {
     }
 }
 
-impl<'a, K: Ordinal + Debug> Debug for Keys<'a, K, ()> {
+impl<'a, K: Ordinal + Debug, V> Debug for Keys<'a, K, V> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_list().entries(self.clone()).finish()
     }
@@ -211,7 +211,7 @@ impl<'a, K: Ordinal, V> Clone for Values<'a, K, V> {
     }
 }
 
-impl<'a, K: Ordinal + Debug, V: Debug> Debug for Values<'a, K, V> {
+impl<'a, K: Ordinal, V: Debug> Debug for Values<'a, K, V> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_list().entries(self.clone()).finish()
     }
@@ -257,7 +257,7 @@ impl<'a, K: Ordinal, V> DoubleEndedIterator for ValuesMut<'a, K, V> {
     }
 }
 
-impl<'a, K: Ordinal + Debug, V: Debug> Debug for ValuesMut<'a, K, V> {
+impl<'a, K: Ordinal, V: Debug> Debug for ValuesMut<'a, K, V> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_list().entries(self.iter()).finish()
     }
-- 
2.43.0


From 13141a957d9cbe76ff33f7915f63aacab5e1bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 15/15] fix: the crate did not compile for 32-bit targets

---
 ordinal-map/src/ordinal/impls/non_zero.rs  | 5 +++++
 ordinal-map/src/ordinal/impls/primitive.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/non_zero.rs b/ordinal-map/src/ordinal/impls/non_zero.rs
index ea1c7ff..d040e90 100644
--- a/ordinal-map/src/ordinal/impls/non_zero.rs
+++ b/ordinal-map/src/ordinal/impls/non_zero.rs
@@ -1,10 +1,12 @@
 use std::num::NonZeroI16;
 use std::num::NonZeroI32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroI64;
 use std::num::NonZeroI8;
 use std::num::NonZeroIsize;
 use std::num::NonZeroU16;
 use std::num::NonZeroU32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroU64;
 use std::num::NonZeroU8;
 use std::num::NonZeroUsize;
@@ -164,6 +166,7 @@ impl Ordinal for NonZeroIsize {
 }
 
 /// It is compile-time error to use this impl on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroU64 {
     const ORDINAL_SIZE: usize = if u64::MAX == usize::MAX as u64 {
         usize::MAX
@@ -182,6 +185,8 @@ impl Ordinal for NonZeroU64 {
     }
 }
 
+/// It is compile-time error to use this impl on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroI64 {
     const ORDINAL_SIZE: usize = NonZeroU64::ORDINAL_SIZE;
 
diff --git a/ordinal-map/src/ordinal/impls/primitive.rs b/ordinal-map/src/ordinal/impls/primitive.rs
index 7e34c7c..6fd0898 100644
--- a/ordinal-map/src/ordinal/impls/primitive.rs
+++ b/ordinal-map/src/ordinal/impls/primitive.rs
@@ -73,6 +73,7 @@ impl Ordinal for i16 {
 }
 
 /// Accessing this type is compile time error on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for u32 {
     const ORDINAL_SIZE: usize = u32::MAX as usize + 1;
 
@@ -88,6 +89,8 @@ impl Ordinal for u32 {
     }
 }
 
+/// Accessing this type is compile time error on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for i32 {
     const ORDINAL_SIZE: usize = u32::ORDINAL_SIZE;
 
-- 
2.43.0

