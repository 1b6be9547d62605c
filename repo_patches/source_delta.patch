From 2c07a0e95d864d524062fa7a9d219251ee9d91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 01/13] fix: OrdinalMap::contains_key is false for absent keys
 of an allocated map

It only checked that the slot exists, so after the first insertion every
key was reported as present.
---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From cdd0c64a2b847ea927c48787c8016f2a931aaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 02/13] fix: char::from_ordinal does not truncate ordinals
 above u32::MAX

char::from_ordinal(1 << 32) returned Some('\u{800}') instead of None.
---
 ordinal-map/src/ordinal/impls/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..b760f59 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -18,7 +18,7 @@ impl Ordinal for char {
         if ordinal < SURROGATE_START as usize {
             char::from_u32(ordinal as u32)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From 2dac24b930a0df1a41a7bc9c2ca9a0fb86b10e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 03/13] fix: OrdinalSet64::all for types with exactly 64 values

1 << 64 overflowed: panic with overflow checks, empty set without them.
---
 ordinal-map/src/set/set64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..a98c7d9 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,10 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: match T::ORDINAL_SIZE {
+                0 => 0,
+                n => u64::MAX >> (u64::BITS as usize - n),
+            },
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 2076eb66329549912c43171872a74bd0665a4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/13] fix: exact size_hint for total::IntoIterArray

It implements ExactSizeIterator, which requires size_hint to be exact, but
used the default (0, None): e.g. into_iter().peekable().len() panicked.
---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From d5d47c37b6c737a2eab19f871f905be1af12aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 05/13] fix: OrdinalTotalArrayMap::from_array checks S at
 compile time

Like every other constructor. A map with the wrong S could be built, whose
len() was not K::ORDINAL_SIZE and whose lookups or iteration panicked.
---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0


From e7ee3bde62ef0ce66b58965d9f7adde1050dd6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 06/13] fix: do not panic on OrdinalSet and OrdinalSet64 of
 types with no values

They keep one (unused) word, but the debug assertion expected none, so
iterating or formatting an OrdinalSet<Infallible> panicked in debug builds.
---
 ordinal-map/src/set/set_ref.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set_ref.rs b/ordinal-map/src/set/set_ref.rs
index 5913072..3b098e5 100644
--- a/ordinal-map/src/set/set_ref.rs
+++ b/ordinal-map/src/set/set_ref.rs
@@ -19,7 +19,8 @@ impl<'a, T: Ordinal> OrdinalSetRef<'a, T> {
 
     #[inline]
     pub(crate) fn new(words: &'a [u64]) -> Self {
-        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>());
+        // Single-word sets have one word even if `T` has no values.
+        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>().max(1));
         OrdinalSetRef {
             words,
             _phantom: PhantomData,
-- 
2.43.0


From 846039333e7f5c418787a6905fd7be19dbd333d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 07/13] fix: reject Option, Result, Either and arrays whose
 size overflows usize

The trait documents that more than usize::MAX values is a compile-time error,
and tuples and derived types enforce it, but ordinal() and from_ordinal() of
these four did not: in release builds
Result::<NonZeroUsize, NonZeroUsize>::Err(2).ordinal() was 0, the ordinal of
Ok(1), and Some(Some(NonZeroUsize::MAX)).ordinal() was 0, that of None.
Option<NonZeroUsize>, where no ordinal overflows, still works.
---
 ordinal-map/src/ordinal/impls/array.rs  | 2 ++
 ordinal-map/src/ordinal/impls/either.rs | 2 ++
 ordinal-map/src/ordinal/impls/std.rs    | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/array.rs b/ordinal-map/src/ordinal/impls/array.rs
index d3e554a..4add6d0 100644
--- a/ordinal-map/src/ordinal/impls/array.rs
+++ b/ordinal-map/src/ordinal/impls/array.rs
@@ -13,6 +13,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     };
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         let mut r = 0usize;
         for v in self {
             r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
@@ -22,6 +23,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         let mut n = ordinal;
         let mut array = ArrayBuilder::new();
         for _ in 0..N {
diff --git a/ordinal-map/src/ordinal/impls/either.rs b/ordinal-map/src/ordinal/impls/either.rs
index 6c8289f..3455e84 100644
--- a/ordinal-map/src/ordinal/impls/either.rs
+++ b/ordinal-map/src/ordinal/impls/either.rs
@@ -8,6 +8,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     const ORDINAL_SIZE: usize = Result::<A, B>::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Either::Left(a) => a.ordinal(),
             Either::Right(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -15,6 +16,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Either::Left(A::from_ordinal(ordinal).unwrap()))
         } else {
diff --git a/ordinal-map/src/ordinal/impls/std.rs b/ordinal-map/src/ordinal/impls/std.rs
index 022364a..f0b494a 100644
--- a/ordinal-map/src/ordinal/impls/std.rs
+++ b/ordinal-map/src/ordinal/impls/std.rs
@@ -6,6 +6,8 @@ impl<A: Ordinal> Ordinal for Option<A> {
     const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + 1;
 
     fn ordinal(&self) -> usize {
+        // `ordinal() + 1` cannot overflow if `A` itself fits.
+        const { A::ORDINAL_SIZE };
         match self {
             None => 0,
             Some(a) => a.ordinal() + 1,
@@ -13,6 +15,8 @@ impl<A: Ordinal> Ordinal for Option<A> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        // `ordinal() + 1` cannot overflow if `A` itself fits.
+        const { A::ORDINAL_SIZE };
         if ordinal == 0 {
             Some(None)
         } else {
@@ -25,6 +29,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Ok(a) => a.ordinal(),
             Err(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -32,6 +37,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Ok(A::from_ordinal(ordinal).unwrap()))
         } else {
-- 
2.43.0


From 5d87f05c79b7f860d926e7b2456d23106f389345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 08/13] fix: compile on 32-bit targets without mappings too
 large for usize

---
 ordinal-map/src/ordinal/impls/non_zero.rs  | 4 ++++
 ordinal-map/src/ordinal/impls/primitive.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/non_zero.rs b/ordinal-map/src/ordinal/impls/non_zero.rs
index ea1c7ff..9a2c431 100644
--- a/ordinal-map/src/ordinal/impls/non_zero.rs
+++ b/ordinal-map/src/ordinal/impls/non_zero.rs
@@ -1,10 +1,12 @@
 use std::num::NonZeroI16;
 use std::num::NonZeroI32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroI64;
 use std::num::NonZeroI8;
 use std::num::NonZeroIsize;
 use std::num::NonZeroU16;
 use std::num::NonZeroU32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroU64;
 use std::num::NonZeroU8;
 use std::num::NonZeroUsize;
@@ -164,6 +166,7 @@ impl Ordinal for NonZeroIsize {
 }
 
 /// It is compile-time error to use this impl on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroU64 {
     const ORDINAL_SIZE: usize = if u64::MAX == usize::MAX as u64 {
         usize::MAX
@@ -182,6 +185,7 @@ impl Ordinal for NonZeroU64 {
     }
 }
 
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroI64 {
     const ORDINAL_SIZE: usize = NonZeroU64::ORDINAL_SIZE;
 
diff --git a/ordinal-map/src/ordinal/impls/primitive.rs b/ordinal-map/src/ordinal/impls/primitive.rs
index 7e34c7c..32500a0 100644
--- a/ordinal-map/src/ordinal/impls/primitive.rs
+++ b/ordinal-map/src/ordinal/impls/primitive.rs
@@ -73,6 +73,7 @@ impl Ordinal for i16 {
 }
 
 /// Accessing this type is compile time error on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for u32 {
     const ORDINAL_SIZE: usize = u32::MAX as usize + 1;
 
@@ -88,6 +89,7 @@ impl Ordinal for u32 {
     }
 }
 
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for i32 {
     const ORDINAL_SIZE: usize = u32::ORDINAL_SIZE;
 
-- 
2.43.0


From ac2be4de31dc2519dc3903e839ce57a0f1e64703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 09/13] fix: make derived code hygienic for names like rem,
 None and ORDINAL_SIZE

---
 ordinal-map-derive/src/ordinal.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..02de6aa 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -63,7 +63,7 @@ pub(crate) fn derive_ordinal(
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
-        let _check_overflow = Self::ORDINAL_SIZE;
+        let _check_overflow = <Self as ordinal_map::Ordinal>::ORDINAL_SIZE;
     }
 }
 
@@ -71,8 +71,8 @@ fn check_zero_size() -> syn::Stmt {
     syn::parse_quote! {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
-        if Self::ORDINAL_SIZE == 0 {
-            return None;
+        if <Self as ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
+            return std::option::Option::None;
         }
     }
 }
@@ -267,25 +267,28 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Hygienic name, so that a field named `rem` does not shadow it.
+    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
-            return None
+        if #rem != 0 {
+            return std::option::Option::None
         }
     });
     let build = constructor(
-- 
2.43.0


From bda51e5c5840e0f4094696979dcdd8b8b0df8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 10/13] fix: derive for record fields with names that cannot be
 variables, like None

---
 ordinal-map-derive/src/ordinal.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 02de6aa..4cc0ed4 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -77,11 +77,17 @@ fn check_zero_size() -> syn::Stmt {
     }
 }
 
+/// Variables for the fields. Not named after the fields: a variable
+/// cannot have a name like `None`.
 fn field_vars(fields: &syn::Fields) -> impl Iterator<Item = syn::Ident> + '_ {
-    fields.iter().enumerate().map(|(i, f)| match &f.ident {
-        Some(ident) => ident.clone(),
-        None => syn::Ident::new(&format!("f{}", i), f.span()),
-    })
+    fields
+        .iter()
+        .enumerate()
+        .map(|(i, f)| syn::Ident::new(&format!("_field_{}", i), f.span()))
+}
+
+fn field_names(fields: &syn::Fields) -> impl Iterator<Item = &syn::Ident> {
+    fields.iter().filter_map(|f| f.ident.as_ref())
 }
 
 fn field_types(fields: &syn::Fields) -> impl Iterator<Item = &syn::Type> {
@@ -353,9 +359,10 @@ impl StructGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let field_names = field_names(&self.s.fields);
                     syn::parse_quote_spanned! { self.s.struct_token.span =>
                         Self {
-                            #( #field_vars: #exprs, )*
+                            #( #field_names: #exprs, )*
                         }
                     }
                 }
@@ -407,9 +414,10 @@ impl EnumGen {
                     }
                 }
                 syn::Fields::Named(_) => {
+                    let field_names = field_names(&variant.fields);
                     syn::parse_quote_spanned! {
                         variant.span() =>
-                        Self::#variant_name { #( #vars ),* }
+                        Self::#variant_name { #( #field_names: #vars ),* }
                     }
                 }
             };
@@ -461,8 +469,9 @@ impl EnumGen {
                         }
                     }
                     syn::Fields::Named(_) => {
+                        let field_names = field_names(&variant.fields);
                         syn::parse_quote_spanned! { variant.span() =>
-                            Self::#variant_name { #( #exprs ),* }
+                            Self::#variant_name { #( #field_names: #exprs ),* }
                         }
                     }
                 },
-- 
2.43.0


From 95b8e04f9929e5032b4aa65471570757ae3d27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 11/13] fix: derive for record structs whose field names come
 from a macro call

---
 ordinal-map-derive/src/ordinal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 4cc0ed4..40f00c5 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -316,8 +316,9 @@ impl StructGen {
         self.s.fields.iter().enumerate().map(|(i, f)| {
             let i = syn::Index::from(i);
             match &f.ident {
-                Some(ident) => syn::parse_quote_spanned! { ident.span() => &self.#ident },
-                None => syn::parse_quote_spanned! { f.span() => &self.#i },
+                // `self` must not take the span of a field that comes from a macro call.
+                Some(ident) => syn::parse_quote! { &self.#ident },
+                None => syn::parse_quote! { &self.#i },
             }
         })
     }
-- 
2.43.0


From 468329c53de55525708bc77dd3bf63c41444583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 12/13] fix: derive for enums with a unit variant named like a
 generated variable

---
 ordinal-map-derive/src/ordinal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 40f00c5..1addbf2 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -42,7 +42,7 @@ pub(crate) fn derive_ordinal(
     let check_zero_size = check_zero_size();
 
     Ok(syn::parse_quote_spanned! { span =>
-        #[allow(clippy::all)]
+        #[allow(clippy::all, bindings_with_variant_name)]
         impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics #where_clause {
             const ORDINAL_SIZE: usize = #size;
 
-- 
2.43.0


From e3dcd3e092d56e27bc8802c6de3f4fa02d3d2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 13/13] fix: OrdinalArraySet::default checks S at compile time

Like new() and the other containers' default(). A set with the wrong number
of words could be built, although none of its operations would compile.
---
 ordinal-map/src/set/array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/array.rs b/ordinal-map/src/set/array.rs
index b591890..92002c6 100644
--- a/ordinal-map/src/set/array.rs
+++ b/ordinal-map/src/set/array.rs
@@ -73,9 +73,10 @@ impl<T: Ordinal, const S: usize> OrdinalArraySet<T, S> {
     }
 }
 
-impl<T, const S: usize> Default for OrdinalArraySet<T, S> {
+impl<T: Ordinal, const S: usize> Default for OrdinalArraySet<T, S> {
     #[inline]
     fn default() -> Self {
+        const { Self::ASSERT };
         OrdinalArraySet {
             words: [0; S],
             _phantom: PhantomData,
-- 
2.43.0

