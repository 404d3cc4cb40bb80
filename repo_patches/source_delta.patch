From d777cf7402b2be8e35f7f1bca307bf1f2d855d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 01/10] fix: reject trailing bytes when decoding a derived tag
 enum

---
 ssz_derive/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2fefa4a 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,14 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                let expected = <Self as ssz::Decode>::ssz_fixed_len();
+                if bytes.len() != expected {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From 19f753eaf6c29fe83a7dce46ef76000d9fba44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 02/10] fix: reject a non-empty body after the None selector of
 Option

---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..bd08c9e 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From 130ac598bb2b9d84be46810190038243c967704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 03/10] fix: reject trailing bytes after the None selector of
 the legacy option codec

---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From 2f7a0db77f731aabdc4434a9a4a3aa71578990a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 04/10] fix: return ZeroLengthItem instead of panicking for
 lists of zero-length items

---
 ssz/src/decode/impls.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index bd08c9e..479cb3e 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -433,7 +433,7 @@ impl<T: Decode> Decode for Vec<T> {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(non_zero_item_len(T::ssz_fixed_len())?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -452,7 +452,7 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(non_zero_item_len(T::ssz_fixed_len())?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -475,7 +475,7 @@ where
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
             bytes
-                .chunks(<(K, V)>::ssz_fixed_len())
+                .chunks(non_zero_item_len(<(K, V)>::ssz_fixed_len())?)
                 .map(<(K, V)>::from_ssz_bytes)
                 .collect()
         } else {
@@ -497,7 +497,7 @@ where
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
             bytes
-                .chunks(T::ssz_fixed_len())
+                .chunks(non_zero_item_len(T::ssz_fixed_len())?)
                 .map(T::from_ssz_bytes)
                 .collect()
         } else {
@@ -506,6 +506,16 @@ where
     }
 }
 
+/// Returns `len`, the encoded length of a fixed-length list item, or an error if it is zero (a
+/// non-empty input can not be divided into items of zero length).
+fn non_zero_item_len(len: usize) -> Result<usize, DecodeError> {
+    if len == 0 {
+        Err(DecodeError::ZeroLengthItem)
+    } else {
+        Ok(len)
+    }
+}
+
 /// Decodes `bytes` as if it were a list of variable-length items.
 ///
 /// The `ssz::SszDecoder` can also perform this functionality, however this function is
-- 
2.43.0


From 4db37ac2045feb674eefc68d270fd07e06962ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 05/10] fix: generate arbitrary bit vectors from their byte
 length, not their bit length

---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From 8b173207e7367b798f2da059840ee41c27d32d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 06/10] fix: do not overflow when registering a huge
 fixed-length item

---
 ssz/src/decode.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..03ec626 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,13 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index =
+                start
+                    .checked_add(ssz_fixed_len)
+                    .ok_or(DecodeError::InvalidByteLength {
+                        len: self.bytes.len(),
+                        expected: usize::MAX,
+                    })?;
 
             let slice =
                 self.bytes
-- 
2.43.0


From f69707cf717f9385be579d8dfda348870e5fc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 07/10] fix: do not overflow when rejecting a huge dynamic
 bitvector length

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0


From 13de4eb8d15ddc52a9d41dd4284d7b134019011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 08/10] fix: select the live field of a transparent struct by
 skip_serializing when encoding

---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2fefa4a..f7f9eec 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From 0fe0827d87a3cb6f60f2bc31bba4cc314938cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 09/10] fix: honour #[ssz(with = ..)] on the live field of a
 transparent struct

---
 ssz_derive/src/lib.rs | 122 ++++++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 59 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index f7f9eec..7b4e5f9 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -474,45 +474,44 @@ fn ssz_encode_derive_struct_transparent(
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
+    let field = match ident {
+        Some(field_name) => quote! { self.#field_name },
+        None => quote! { self.#index },
+    };
 
-    let output = if let Some(field_name) = ident {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
-
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
-
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
-                }
+    let (is_ssz_fixed_len, ssz_fixed_len, ssz_bytes_len, ssz_append) =
+        if let Some(module) = &field_opts.with {
+            (
+                quote! { #module::encode::is_ssz_fixed_len() },
+                quote! { #module::encode::ssz_fixed_len() },
+                quote! { #module::encode::ssz_bytes_len(&#field) },
+                quote! { #module::encode::ssz_append(&#field, buf) },
+            )
+        } else {
+            (
+                quote! { <#ty as ssz::Encode>::is_ssz_fixed_len() },
+                quote! { <#ty as ssz::Encode>::ssz_fixed_len() },
+                quote! { #field.ssz_bytes_len() },
+                quote! { #field.ssz_append(buf) },
+            )
+        };
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
-                }
+    let output = quote! {
+        impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+            fn is_ssz_fixed_len() -> bool {
+                #is_ssz_fixed_len
             }
-        }
-    } else {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
 
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+            fn ssz_fixed_len() -> usize {
+                #ssz_fixed_len
+            }
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
-                }
+            fn ssz_bytes_len(&self) -> usize {
+                #ssz_bytes_len
+            }
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
-                }
+            fn ssz_append(&self, buf: &mut Vec<u8>) {
+                #ssz_append
             }
         }
     };
@@ -922,45 +921,50 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut metadata = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
-        if let Some(name) = ident {
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #name: <_>::default(),
-                });
-            } else {
-                fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
+        let field = match ident {
+            Some(name) => quote! { #name },
+            None => {
+                let index = Index::from(i);
+                quote! { #index }
             }
+        };
+
+        if field_opts.skip_deserializing {
+            fields.push(quote! {
+                #field: <_>::default(),
+            });
+        } else if let Some(module) = field_opts.with {
+            fields.push(quote! {
+                #field: #module::decode::from_ssz_bytes(bytes)?,
+            });
+            metadata = Some((
+                quote! { #module::decode::is_ssz_fixed_len() },
+                quote! { #module::decode::ssz_fixed_len() },
+            ));
         } else {
-            let index = syn::Index::from(i);
-            if field_opts.skip_deserializing {
-                fields.push(quote! {
-                    #index:<_>::default(),
-                });
-            } else {
-                fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
-                });
-                wrapped_type = Some(ty);
-            }
+            fields.push(quote! {
+                #field: <#ty as ssz::Decode>::from_ssz_bytes(bytes)?,
+            });
+            metadata = Some((
+                quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() },
+                quote! { <#ty as ssz::Decode>::ssz_fixed_len() },
+            ));
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let (is_ssz_fixed_len, ssz_fixed_len) = metadata.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #is_ssz_fixed_len
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #ssz_fixed_len
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From fcdb8d979fc92db41121c3354a56b2a782cd416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 10/10] fix: honour #[ssz(with = ..)] on the fields of enum
 variants

---
 ssz_derive/src/lib.rs | 136 +++++++++++++++++++++++++-----------------
 1 file changed, 82 insertions(+), 54 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 7b4e5f9..f02d764 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -276,11 +276,8 @@ impl<'a> Procedure<'a> {
     }
 }
 
-fn parse_ssz_fields(
-    struct_data: &syn::DataStruct,
-) -> Vec<(&syn::Type, Option<&syn::Ident>, FieldOpts)> {
-    struct_data
-        .fields
+fn parse_ssz_fields(fields: &syn::Fields) -> Vec<(&syn::Type, Option<&syn::Ident>, FieldOpts)> {
+    fields
         .iter()
         .map(|field| {
             let ty = &field.ty;
@@ -306,6 +303,19 @@ fn parse_ssz_fields(
         .collect()
 }
 
+/// The type and the codec module (if any) of the single field of an enum variant.
+fn parse_ssz_variant_field(variant: &syn::Variant) -> (&syn::Type, Option<Ident>) {
+    let (ty, _, field_opts) = parse_ssz_fields(&variant.fields)
+        .pop()
+        .expect("variant must have a single field");
+
+    if field_opts.skip_serializing || field_opts.skip_deserializing {
+        panic!("the field of an enum variant cannot be skipped");
+    }
+
+    (ty, field_opts.with)
+}
+
 /// Implements `ssz::Encode` for some `struct` or `enum`.
 #[proc_macro_derive(Encode, attributes(ssz))]
 pub fn ssz_encode_derive(input: TokenStream) -> TokenStream {
@@ -341,7 +351,7 @@ fn ssz_encode_derive_struct(derive_input: &DeriveInput, struct_data: &DataStruct
     let field_ssz_bytes_len = &mut vec![];
     let field_encoder_append = &mut vec![];
 
-    for (ty, ident, field_opts) in parse_ssz_fields(struct_data) {
+    for (ty, ident, field_opts) in parse_ssz_fields(&struct_data.fields) {
         if field_opts.skip_serializing {
             continue;
         }
@@ -453,7 +463,7 @@ fn ssz_encode_derive_struct_transparent(
 ) -> TokenStream {
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
-    let ssz_fields = parse_ssz_fields(struct_data);
+    let ssz_fields = parse_ssz_fields(&struct_data.fields);
     let num_fields = ssz_fields
         .iter()
         .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
@@ -542,27 +552,33 @@ fn ssz_encode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (patterns, assert_exprs): (Vec<_>, Vec<_>) = enum_data
-        .variants
-        .iter()
-        .map(|variant| {
-            let variant_name = &variant.ident;
+    let mut patterns = vec![];
+    let mut assert_exprs = vec![];
+    let mut bytes_len_exprs = vec![];
+    let mut append_exprs = vec![];
 
-            if variant.fields.len() != 1 {
-                panic!("ssz::Encode can only be derived for enums with 1 field per variant");
-            }
+    for variant in &enum_data.variants {
+        let variant_name = &variant.ident;
 
-            let pattern = quote! {
-                #name::#variant_name(ref inner)
-            };
+        if variant.fields.len() != 1 {
+            panic!("ssz::Encode can only be derived for enums with 1 field per variant");
+        }
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            let type_assert = quote! {
-                !<#ty as ssz::Encode>::is_ssz_fixed_len()
-            };
-            (pattern, type_assert)
-        })
-        .unzip();
+        patterns.push(quote! {
+            #name::#variant_name(ref inner)
+        });
+
+        let (ty, with) = parse_ssz_variant_field(variant);
+        if let Some(module) = with {
+            assert_exprs.push(quote! { !#module::encode::is_ssz_fixed_len() });
+            bytes_len_exprs.push(quote! { #module::encode::ssz_bytes_len(inner) });
+            append_exprs.push(quote! { #module::encode::ssz_append(inner, buf) });
+        } else {
+            assert_exprs.push(quote! { !<#ty as ssz::Encode>::is_ssz_fixed_len() });
+            bytes_len_exprs.push(quote! { inner.ssz_bytes_len() });
+            append_exprs.push(quote! { inner.ssz_append(buf) });
+        }
+    }
 
     let output = quote! {
         impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
@@ -579,7 +595,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner.ssz_bytes_len(),
+                        #patterns => #bytes_len_exprs,
                     )*
                 }
             }
@@ -587,7 +603,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_append(&self, buf: &mut Vec<u8>) {
                 match self {
                     #(
-                        #patterns => inner.ssz_append(buf),
+                        #patterns => #append_exprs,
                     )*
                 }
             }
@@ -670,22 +686,29 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let patterns: Vec<_> = enum_data
-        .variants
-        .iter()
-        .map(|variant| {
-            let variant_name = &variant.ident;
+    let mut patterns = vec![];
+    let mut bytes_len_exprs = vec![];
+    let mut append_exprs = vec![];
 
-            if variant.fields.len() != 1 {
-                panic!("ssz::Encode can only be derived for enums with 1 field per variant");
-            }
+    for variant in &enum_data.variants {
+        let variant_name = &variant.ident;
 
-            let pattern = quote! {
-                #name::#variant_name(ref inner)
-            };
-            pattern
-        })
-        .collect();
+        if variant.fields.len() != 1 {
+            panic!("ssz::Encode can only be derived for enums with 1 field per variant");
+        }
+
+        patterns.push(quote! {
+            #name::#variant_name(ref inner)
+        });
+
+        if let (_, Some(module)) = parse_ssz_variant_field(variant) {
+            bytes_len_exprs.push(quote! { #module::encode::ssz_bytes_len(inner) });
+            append_exprs.push(quote! { #module::encode::ssz_append(inner, buf) });
+        } else {
+            bytes_len_exprs.push(quote! { inner.ssz_bytes_len() });
+            append_exprs.push(quote! { inner.ssz_append(buf) });
+        }
+    }
 
     let union_selectors = compute_union_selectors(patterns.len());
 
@@ -698,8 +721,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner
-                            .ssz_bytes_len()
+                        #patterns => #bytes_len_exprs
                             .checked_add(1)
                             .expect("encoded length must be less than usize::max_value"),
                     )*
@@ -713,7 +735,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                             let union_selector: u8 = #union_selectors;
                             debug_assert!(union_selector <= ssz::MAX_UNION_SELECTOR);
                             buf.push(union_selector);
-                            inner.ssz_append(buf)
+                            #append_exprs
                         },
                     )*
                 }
@@ -762,7 +784,7 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
     let mut is_fixed_lens = vec![];
     let mut fixed_lens = vec![];
 
-    for (ty, ident, field_opts) in parse_ssz_fields(struct_data) {
+    for (ty, ident, field_opts) in parse_ssz_fields(&struct_data.fields) {
         let ident = match ident {
             Some(ref ident) => ident,
             _ => panic!(
@@ -907,7 +929,7 @@ fn ssz_decode_derive_struct_transparent(
 ) -> TokenStream {
     let name = &item.ident;
     let (impl_generics, ty_generics, where_clause) = &item.generics.split_for_impl();
-    let ssz_fields = parse_ssz_fields(struct_data);
+    let ssz_fields = parse_ssz_fields(&struct_data.fields);
     let num_fields = ssz_fields
         .iter()
         .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
@@ -1046,7 +1068,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, decodes): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1060,8 +1082,11 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            let decode = match parse_ssz_variant_field(variant) {
+                (_, Some(module)) => quote! { #module::decode::from_ssz_bytes },
+                (ty, None) => quote! { <#ty as ssz::Decode>::from_ssz_bytes },
+            };
+            (constructor, decode)
         })
         .unzip();
 
@@ -1083,7 +1108,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 match selector.into() {
                     #(
                         #union_selectors => {
-                            <#var_types as ssz::Decode>::from_ssz_bytes(body).map(#constructors)
+                            #decodes(body).map(#constructors)
                         },
                     )*
                     other => Err(ssz::DecodeError::UnionSelectorInvalid(other))
@@ -1115,7 +1140,7 @@ fn ssz_decode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, decodes): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1129,8 +1154,11 @@ fn ssz_decode_derive_enum_transparent(
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            let decode = match parse_ssz_variant_field(variant) {
+                (_, Some(module)) => quote! { #module::decode::from_ssz_bytes },
+                (ty, None) => quote! { <#ty as ssz::Decode>::from_ssz_bytes },
+            };
+            (constructor, decode)
         })
         .unzip();
 
@@ -1142,7 +1170,7 @@ fn ssz_decode_derive_enum_transparent(
 
             fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                 #(
-                    if let Ok(var) = <#var_types as ssz::Decode>::from_ssz_bytes(bytes) {
+                    if let Ok(var) = #decodes(bytes) {
                         return Ok(#constructors(var));
                     }
                 )*
-- 
2.43.0

