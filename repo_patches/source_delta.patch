From cf85153411775e13c5cf32054cb3cd2ed289302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 01/12] fix: derive layouts for structs with many fields

Each generated padding function called all earlier ones, making constant
evaluation exponential in the number of fields: structs of 20 or more fields
were rejected by rustc's long_running_const_eval lint.
---
 crevice-derive/src/layout.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..c94efaa 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -111,7 +111,12 @@ pub fn emit(
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
                     // alignment we are.
-                    let starting_offset = #starting_offset;
+                    //
+                    // This is a constant so that the compiler evaluates it only
+                    // once. It depends on all previous padding functions, so
+                    // evaluating it on every call would be exponential in the
+                    // number of fields.
+                    const STARTING_OFFSET: usize = #starting_offset;
 
                     // We set our target alignment to the larger of the
                     // alignment due to the previous field and the alignment
@@ -119,7 +124,7 @@ pub fn emit(
                     let alignment = #next_field_or_self_alignment;
 
                     // Using everything we've got, compute our padding amount.
-                    ::crevice::internal::align_offset(starting_offset, alignment)
+                    ::crevice::internal::align_offset(STARTING_OFFSET, alignment)
                 }
             }
         })
-- 
2.43.0


From 43d0adbf8d5ead915f215ee1336732480c6fde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 02/12] fix: allow DynamicUniform as a field of derived structs

The generated struct derives Debug, which DynamicUniformStd140 did not
implement.
---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From 0ba4b3470de21e292ce27c52beba8327cbd60d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 03/12] fix: implement Glsl for bool

All GLSL primitives are documented to implement Glsl, but structs with a bool
field could not derive GlslStruct.
---
 src/glsl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..b63182d 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -97,3 +97,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for crate::bool::Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From e898a1232e1b733b7c036c73fab906dd2c3e4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 04/12] fix: strip r# from names in generated GLSL

Raw identifiers were copied verbatim into the GLSL source, which is not valid
GLSL.
---
 crevice-derive/src/glsl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..78b7924 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
@@ -16,13 +17,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 16afb65fcacba749e798af8a756ec55c0826f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 05/12] fix: allow fields named like the generated padding
 fields

A field called _pad0 (or _pad1, ...) collided with the padding field of the
same name in the generated struct.
---
 crevice-derive/src/layout.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index c94efaa..15b972b 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -130,13 +130,27 @@ pub fn emit(
         })
         .collect();
 
+    // Padding fields are named so that they cannot clash with any of the
+    // input's own fields.
+    let mut pad_prefix = String::from("_pad");
+    while fields.iter().any(|field| {
+        field
+            .ident
+            .as_ref()
+            .unwrap()
+            .to_string()
+            .starts_with(&pad_prefix)
+    }) {
+        pad_prefix.insert(0, '_');
+    }
+
     let generated_struct_fields: TokenStream = fields
         .iter()
         .enumerate()
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("{}{}", pad_prefix, index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From de3b03f3fe81b75efb51b41beca194edf3c84cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/12] fix: treat an initially empty iterator as an empty
 batch in write_iter

---
 src/std140/writer.rs | 4 +++-
 src/std430/writer.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/std140/writer.rs b/src/std140/writer.rs
index c9333b5..8764f0a 100644
--- a/src/std140/writer.rs
+++ b/src/std140/writer.rs
@@ -109,7 +109,9 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        // Fused, so that an iterator which is empty at first (but might yield
+        // items later) counts as empty.
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std140(self)?;
diff --git a/src/std430/writer.rs b/src/std430/writer.rs
index 976bf25..c5ea1b9 100644
--- a/src/std430/writer.rs
+++ b/src/std430/writer.rs
@@ -109,7 +109,9 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        // Fused, so that an iterator which is empty at first (but might yield
+        // items later) counts as empty.
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std430(self)?;
-- 
2.43.0


From 39436412c4b28cfea5d55ee1e1e0f76285a54d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 07/12] fix: call field conversions by trait path in derived
 code

Method-call syntax picked up inherent methods of the field type, or was
ambiguous with another trait in scope that has a method of the same name.
---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 15b972b..5987fe2 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -166,7 +166,7 @@ pub fn emit(
             let field_name = field.ident.as_ref().unwrap();
 
             quote! {
-                #field_name: self.#field_name.#as_trait_method(),
+                #field_name: #as_trait_path::#as_trait_method(&self.#field_name),
             }
         })
         .collect();
-- 
2.43.0


From 20b9100598df78bd9fd13dca9e380ba813ae2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 08/12] fix: do not warn about deprecated items in derived code

Deriving for a deprecated struct, or for one whose fields have deprecated
types that the user allows, reported the user's items as deprecated uses.
---
 crevice-derive/src/glsl.rs   | 2 ++
 crevice-derive/src/layout.rs | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index 78b7924..6af9921 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -34,10 +34,12 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     });
 
     quote! {
+        #[allow(deprecated)]
         unsafe impl #impl_generics #base_trait_path for #name #ty_generics #where_clause {
             const NAME: &'static str = #name_str;
         }
 
+        #[allow(deprecated)]
         unsafe impl #impl_generics #struct_trait_path for #name #ty_generics #where_clause {
             const FIELDS: &'static [::crevice::glsl::GlslField] = &[
                 #( #glsl_fields, )*
diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 5987fe2..61c78ab 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -106,7 +106,7 @@ pub fn emit(
             quote! {
                 /// Tells how many bytes of padding have to be inserted after
                 /// the field with index #index.
-                #[allow(non_snake_case)]
+                #[allow(deprecated, non_snake_case)]
                 const fn #pad_fn() -> usize {
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
@@ -211,6 +211,7 @@ pub fn emit(
             .collect();
 
         quote! {
+            #[allow(deprecated)]
             impl #impl_generics #generated_name #ty_generics #where_clause {
                 fn debug_metrics() -> String {
                     let size = ::core::mem::size_of::<Self>();
@@ -257,10 +258,12 @@ pub fn emit(
         unsafe impl #impl_generics ::crevice::internal::bytemuck::Zeroable for #generated_name #ty_generics #where_clause {}
         unsafe impl #impl_generics ::crevice::internal::bytemuck::Pod for #generated_name #ty_generics #where_clause {}
 
+        #[allow(deprecated)]
         unsafe impl #impl_generics #trait_path for #generated_name #ty_generics #where_clause {
             const ALIGNMENT: usize = #struct_alignment;
         }
 
+        #[allow(deprecated)]
         impl #impl_generics #as_trait_path for #input_name #ty_generics #where_clause {
             type Output = #generated_name;
 
-- 
2.43.0


From 47fc80b491ac822ee3deeae0122bad24db262bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 09/12] fix: debug_metrics reports the size of the layout type
 of a field

It reported the size of the host type next to the offset in the layout
struct, so a bool appeared to take one byte, a std140 mat3 36 bytes, and a
nested struct whatever rustc made of it.
---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 61c78ab..3186eef 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -197,7 +197,7 @@ pub fn emit(
             .iter()
             .map(|field| {
                 let field_name = field.ident.as_ref().unwrap();
-                let field_ty = &field.ty;
+                let field_ty = layout_version_of_ty(&field.ty);
 
                 quote! {
                     fields.push(Field {
-- 
2.43.0


From cf9eee3794b486a6705ccbd080ffa654e5774c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 10/12] fix: structs without fields can be derived with
 debug-methods

The type of the empty field list could not be inferred.
---
 crevice-derive/src/layout.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 3186eef..6fcb53f 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -225,7 +225,8 @@ pub fn emit(
                         offset: usize,
                         size: usize,
                     }
-                    let mut fields = Vec::new();
+                    #[allow(unused_mut)]
+                    let mut fields: Vec<Field> = Vec::new();
 
                     #debug_fields
 
-- 
2.43.0


From bc1f6650eb72ab0e5fe54e9f5d78cac053bc3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 11/12] fix: padding fields must not clash with fields written
 as raw identifiers

---
 crevice-derive/src/layout.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 6fcb53f..b842f51 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
+use syn::ext::IdentExt;
 use syn::{parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
 
 pub fn emit(
@@ -138,6 +139,7 @@ pub fn emit(
             .ident
             .as_ref()
             .unwrap()
+            .unraw()
             .to_string()
             .starts_with(&pad_prefix)
     }) {
-- 
2.43.0


From e62aa1bd63576ba1124c09eb6b6b48179f1e7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:10 +0000
Subject: [PATCH 12/12] fix: GLSL booleans that are both true are equal,
 whatever their words

---
 src/bool.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bool.rs b/src/bool.rs
index f777fa6..3d4abb6 100644
--- a/src/bool.rs
+++ b/src/bool.rs
@@ -5,10 +5,19 @@ use bytemuck::{Pod, Zeroable};
 /// GLSL's `bool` type.
 ///
 /// Boolean values in GLSL are 32 bits, in contrast with Rust's 8 bit bools.
-#[derive(Clone, Copy, Eq, PartialEq)]
+#[derive(Clone, Copy)]
 #[repr(transparent)]
 pub struct Bool(u32);
 
+// Every word other than zero is true, so words must not be compared directly.
+impl PartialEq for Bool {
+    fn eq(&self, other: &Self) -> bool {
+        bool::from(*self) == bool::from(*other)
+    }
+}
+
+impl Eq for Bool {}
+
 unsafe impl Zeroable for Bool {}
 unsafe impl Pod for Bool {}
 
-- 
2.43.0

