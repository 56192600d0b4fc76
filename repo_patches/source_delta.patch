From 6b1b9173b9b93b51e1716e4a96199492b4007450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 01/14] fix: reject arrays of the wrong length when decoding
 tuples

Decoding a tuple from an array with too few elements panicked (removal from an
empty vector), so a peer could crash the process with a short array. Surplus
elements were silently dropped. Treat both like fixed-size arrays do.
---
 src/decode.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..bd44a59 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,15 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut it = values.into_iter();
+                let result = (for_tuples!( #(
+                    Tuple::try_from_cbor_value(it.next().ok_or(DecodeError::UnexpectedType)?)?
+                ),* ));
+                if it.next().is_some() {
+                    return Err(DecodeError::UnexpectedType);
+                }
+                Ok(result)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 0cc0315c350b6a0f8f46257c269fba1b64eb1266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 02/14] fix: do not wrap large negative integers in serde
 deserialization

Negative integers below i64::MIN were cast to i64, so e.g. -2^64 deserialized
as 0. Hand them to the visitor as i128, which narrower targets reject.
---
 src/serde/de.rs    | 7 +++++--
 src/serde/error.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index 8d24a01..1bdc7c4 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{convert::TryFrom, fmt::Display};
 
 use serde::{de, ser};
 
@@ -48,7 +48,10 @@ impl de::Error for Error {
 pub(crate) fn unexpected(v: &Value) -> de::Unexpected {
     match v {
         Value::Unsigned(n) => de::Unexpected::Unsigned(*n),
-        Value::Negative(n) => de::Unexpected::Signed(*n as i64),
+        Value::Negative(n) => match i64::try_from(*n) {
+            Ok(n) => de::Unexpected::Signed(n),
+            Err(_) => de::Unexpected::Other("negative integer below 64-bit range"),
+        },
         Value::ByteString(s) => de::Unexpected::Bytes(s),
         Value::TextString(s) => de::Unexpected::Str(s),
         Value::Array(_) => de::Unexpected::Seq,
-- 
2.43.0


From ca79a4ac91fdcfd62b0b4bd9f5ead2428aaff3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 03/14] fix: do not read floats as booleans or null in
 non-strict mode

In non-strict mode a floating point value whose bits happen to be 20 to 23,
e.g. 0xf90015, was decoded as false, true, null or undefined. Decode it as
undefined like every other floating point value.
---
 value/src/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..6709bee 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -237,6 +237,11 @@ impl<'a> Reader<'a> {
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
         }
+        if additional_info > Constants::ADDITIONAL_INFORMATION_1_BYTE {
+            // Floating point values are not supported, their bits must not be taken for a simple
+            // value.
+            return Ok(Value::Simple(SimpleValue::Undefined));
+        }
         match SimpleValue::from_integer(size_value) {
             Some(simple_value) => Ok(Value::Simple(simple_value)),
             None if self.non_strict => Ok(Value::Simple(SimpleValue::Undefined)),
-- 
2.43.0


From e1facff8eb53df49e0a92cd4f38efa0037fbdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 04/14] fix: order map keys that contain maps by their
 canonical encoding

Keys were compared with the entries of maps inside them in construction order,
but these are sorted when the key is written. Maps keyed by structs or maps
could therefore be written out of order or with duplicate keys, which the
decoder then rejects.
---
 value/src/writer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..b176cf1 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -44,6 +44,23 @@ pub fn write_nested(
     writer.encode_cbor(value, max_nest)
 }
 
+/// Sort the entries of all maps within a map key, so that keys compare in the order of their
+/// encodings and keys that have the same encoding compare equal.
+fn sort_nested_maps(key: &mut Value) {
+    match key {
+        Value::Array(array) => array.iter_mut().for_each(sort_nested_maps),
+        Value::Map(map) => {
+            for (k, v) in map.iter_mut() {
+                sort_nested_maps(k);
+                sort_nested_maps(v);
+            }
+            map.sort_by(|a, b| a.0.cmp(&b.0));
+        }
+        Value::Tag(_, inner) => sort_nested_maps(inner),
+        _ => {}
+    }
+}
+
 struct Writer<'a> {
     encoded_cbor: &'a mut Vec<u8>,
 }
@@ -80,6 +97,9 @@ impl<'a> Writer<'a> {
                 }
             }
             Value::Map(mut map) => {
+                for (key, _) in map.iter_mut() {
+                    sort_nested_maps(key);
+                }
                 map.sort_by(|a, b| a.0.cmp(&b.0));
                 let map_len = map.len();
                 map.dedup_by(|a, b| a.0.eq(&b.0));
-- 
2.43.0


From edcd8fa274a55d6fa6728ed28319639322d5ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 05/14] fix: encode hash sets deterministically

The elements of a HashSet were written in iteration order, which differs between
instances, so equal sets had different encodings.
---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..fec87ea 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        let mut items: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        // The iteration order is arbitrary, make sure that equal sets encode to the same bytes.
+        items.sort();
+        Value::Array(items)
     }
 }
 
-- 
2.43.0


From 231b40586a8633776334481b4f2bf030d9e39213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 06/14] fix: allow unknown fields anywhere with allow_unknown

Unknown fields were only ignored if they sorted after the last known field,
others were still rejected.
---
 derive/src/decode.rs |  9 +++++++--
 src/macros.rs        | 13 +++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..43ff314 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,8 +148,13 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_fn = if allow_unknown {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_non_strict)
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict)
+                        };
                         let field_value = quote!({
                             let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..0266197 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -26,3 +26,16 @@ pub fn destructure_cbor_map_peek_value_strict(
         }
     }
 }
+
+/// This function is an internal detail of the Decode derive macro, but has public visibility so
+/// that users of the macro can use it.
+pub fn destructure_cbor_map_peek_value_non_strict(
+    it: &mut Peekable<std::vec::IntoIter<(Value, Value)>>,
+    needle: Value,
+) -> Result<Option<Value>, DecodeError> {
+    // Skip unexpected fields.
+    while it.peek().map_or(false, |(key, _)| key < &needle) {
+        it.next();
+    }
+    destructure_cbor_map_peek_value_strict(it, needle)
+}
-- 
2.43.0


From 01084f142eefe38cfc465f3a4412368bf3c5bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 07/14] fix: encode unit variants of internally tagged enums

Encoding such a variant panicked, as it is not encoded as a map that the tag
could be added to unless it is also marked as_struct. The decoder already
accepts a map that only consists of the tag.
---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..2795f10 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // The tag of an internally tagged enum can only be added to a map.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 5c139d0505f46b164cbbbc9254ae299e4f448628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 08/14] fix: apply serialize_with to optional fields

The custom encode function was ignored for fields marked optional, while the
custom decode function is applied to them.
---
 derive/src/encode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 2795f10..fcdebda 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -172,8 +172,12 @@ fn derive_struct(
                         // null value.
                         match &field.skip_serializing_if {
                             None => {
+                                let field_value = match &field.serialize_with {
+                                    Some(custom_encode_fn) => quote!(#custom_encode_fn(&#field_binding)),
+                                    None => field_binding,
+                                };
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_value) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 8dd3742aed30bc9e16ea63a9ec87c4540a47f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 09/14] fix: do not decode unit structs from arbitrary data

A unit struct, and likewise a unit variant encoded as a struct, could be decoded
from any value whatsoever. Only accept null and maps without unknown fields.
---
 derive/src/decode.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 43ff314..cbd3d02 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -121,7 +121,18 @@ fn derive_struct(
             (extract_value, field_map_items)
         } else if fields.is_unit() {
             // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
+            let extract_value = quote! {
+                match value {
+                    __cbor::Value::Simple(
+                        __cbor::SimpleValue::NullValue | __cbor::SimpleValue::Undefined,
+                    ) => vec![],
+                    // Encoded as a struct without any known fields.
+                    __cbor::Value::Map(map) => map,
+                    _ => return Err(__cbor::DecodeError::UnexpectedType),
+                }
+            };
+
+            (extract_value, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
-- 
2.43.0


From dd30ae44c8d0a2c4c5b88da97796ab702dcfb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 10/14] fix: decode embedded enums that encode as maps with
 several entries

An embedded variant whose inner type encodes as a map with other than one entry,
such as an internally tagged enum, could be encoded but not decoded.
---
 derive/src/decode.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index cbd3d02..4bc78b3 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -415,19 +415,27 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             Err(__cbor::DecodeError::UnknownField)
         }
     } else {
-        let embedded_decoders_map = if !embedded_decoders.is_empty() {
-            quote! {
-                let value = __cbor::Value::Map(vec![(key, value)]);
-                #(#embedded_decoders)*
-            }
+        let (embedded_decoders_multi_map, embedded_decoders_map) = if !embedded_decoders.is_empty()
+        {
+            (
+                quote! {
+                    let value = __cbor::Value::Map(map);
+                    #(#embedded_decoders)*
+                },
+                quote! {
+                    let value = __cbor::Value::Map(vec![(key, value)]);
+                    #(#embedded_decoders)*
+                },
+            )
         } else {
-            quote!()
+            (quote!(), quote!())
         };
 
         quote! {
             match value {
                 __cbor::Value::Map(mut map) => {
                     if map.len() != 1 {
+                        #embedded_decoders_multi_map
                         return Err(__cbor::DecodeError::UnknownField);
                     }
 
-- 
2.43.0


From 77159e4374b86326b260da3d64f791b2b3faebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 11/14] fix: encode hash sets of elements that contain hash
 maps deterministically

Elements were ordered with the entries of maps inside them in iteration order,
so equal sets could still encode to different bytes.
---
 src/encode.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/encode.rs b/src/encode.rs
index fec87ea..c87481b 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use impl_trait_for_tuples::impl_for_tuples;
 
-use crate::{SimpleValue, Value};
+use crate::{writer, SimpleValue, Value};
 
 /// Trait for types that can be encoded into CBOR.
 pub trait Encode {
@@ -290,8 +290,14 @@ impl<V: Encode> Encode for HashSet<V> {
 
     fn into_cbor_value(self) -> Value {
         let mut items: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
-        // The iteration order is arbitrary, make sure that equal sets encode to the same bytes.
-        items.sort();
+        // The iteration order is arbitrary, make sure that equal sets encode to the same bytes. The
+        // items themselves can contain maps with entries in arbitrary order, so compare encodings.
+        items.sort_by_cached_key(|item| {
+            let mut encoded = vec![];
+            // In case of an error, encoding the whole set will fail as well.
+            let _ = writer::write(item.clone(), &mut encoded);
+            encoded
+        });
         Value::Array(items)
     }
 }
-- 
2.43.0


From 6da8517990f2adca5dad28182242f00a0e17f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 12/14] fix: reject surplus elements in serde deserialization
 of arrays

---
 src/serde/de.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index d8f2d58..3d4dcde 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -98,8 +98,15 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     where
         V: Visitor<'de>,
     {
-        struct SeqAccessImpl<I>(I);
-        impl<'de, I: Iterator<Item = Value>> de::SeqAccess<'de> for SeqAccessImpl<I> {
+        struct ExpectedLen(usize);
+        impl de::Expected for ExpectedLen {
+            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                write!(f, "array of {} elements", self.0)
+            }
+        }
+
+        struct SeqAccessImpl<'a, I>(&'a mut I);
+        impl<'de, I: Iterator<Item = Value>> de::SeqAccess<'de> for SeqAccessImpl<'_, I> {
             type Error = Error;
 
             fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error>
@@ -119,7 +126,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let mut items = items.into_iter();
+        let len = items.len();
+        let value = visitor.visit_seq(SeqAccessImpl(&mut items))?;
+        match items.len() {
+            0 => Ok(value),
+            surplus => Err(Error::invalid_length(len, &ExpectedLen(len - surplus))),
+        }
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From b2178621b5e311041e2365b846195824fab6e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 13/14] fix: honour custom encode and decode functions of
 newtype fields

The functions given for the only field of a transparent struct or of a newtype
variant were silently ignored.
---
 derive/src/decode.rs | 16 +++++++++++-----
 derive/src/encode.rs | 20 ++++++++++++++++----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 4bc78b3..7dbe71c 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -67,6 +67,14 @@ fn field_decode_fn(field: &Field) -> TokenStream {
     }
 }
 
+/// The function that decodes the field of a newtype, respecting any custom decode function.
+fn newtype_decode_fn(ident: &Ident, field: Option<&Field>) -> TokenStream {
+    match field {
+        Some(field) if field.deserialize_with.is_some() => field_decode_fn(field),
+        _ => quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default),
+    }
+}
+
 fn derive_struct(
     ident: &Ident,
     transparent: bool,
@@ -78,7 +86,7 @@ fn derive_struct(
     if transparent {
         // Transparently forward the implementation to the underlying type. This is only valid for
         // newtype structs.
-        let decode_fn = quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+        let decode_fn = newtype_decode_fn(ident, fields.fields.first().copied());
         quote!(Self(#decode_fn(value)?))
     } else {
         // Process all fields and decode the structure as a map or array.
@@ -281,8 +289,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
 
             let decoder = if variant.fields.is_newtype() {
                 // Newtype variants map the key directly to the inner value as if transparent was used.
-                let decode_fn =
-                    quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+                let decode_fn = newtype_decode_fn(&variant.ident, variant.fields.fields.first());
                 quote!(Self::#variant_ident(#decode_fn(value)?))
             } else {
                 if dec.tag.is_some() && (variant.as_array.is_present() || variant.fields.is_tuple()) {
@@ -367,8 +374,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             }
 
             let variant_ident = &variant.ident;
-            let decode_fn =
-                quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+            let decode_fn = newtype_decode_fn(&variant.ident, variant.fields.fields.first());
 
             // TODO: Can we get rid of clone?
             Some(quote! {
diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index fcdebda..7b57958 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -78,6 +78,14 @@ pub fn derive(input: DeriveInput) -> TokenStream {
     })
 }
 
+/// The value to encode for the field of a newtype, respecting any custom encode function.
+fn newtype_value(field: &Field, binding: TokenStream) -> TokenStream {
+    match &field.serialize_with {
+        Some(custom_encode_fn) => quote!(#custom_encode_fn(&#binding)),
+        None => binding,
+    }
+}
+
 fn derive_struct(
     ident: &Ident,
     transparent: bool,
@@ -109,9 +117,11 @@ fn derive_struct(
         let encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_cbor_value);
         let opt_encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_optional_cbor_value);
 
+        let value = newtype_value(fields.fields[0], quote!(self.0));
+
         DeriveResult {
-            enc_impl: quote!(#encode_fn(self.0)),
-            opt_enc_impl: quote!(#opt_encode_fn(self.0)),
+            enc_impl: quote!(#encode_fn(#value)),
+            opt_enc_impl: quote!(#opt_encode_fn(#value)),
             encode_as_map: false, // We cannot be sure that the inner type encodes as map.
         }
     } else {
@@ -291,7 +301,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                let value = newtype_value(&variant.fields.fields[0], quote!(inner));
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(#value), }, true);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
@@ -307,7 +318,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                 // For others, encode as a map.
                 if variant.fields.is_newtype() {
                     // Newtype variants map the key directly to the inner value as if transparent was used.
-                    let inner = quote!(#encode_fn(inner));
+                    let value = newtype_value(&variant.fields.fields[0], quote!(inner));
+                    let inner = quote!(#encode_fn(#value));
                     let wrapper = maybe_wrap_map(variant, key, inner);
 
                     (quote! { Self::#variant_ident(inner) => #wrapper, }, true)
-- 
2.43.0


From b75f35e738f99be75c60c1fd4664c1e657065b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 14/14] fix: leave out the skipped field of a newtype variant

A newtype variant was encoded as its content even if that was to be skipped.
---
 derive/src/common.rs | 5 +++++
 derive/src/decode.rs | 2 +-
 derive/src/encode.rs | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 4358a6d..d463e09 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -171,6 +171,11 @@ pub struct Variant {
 }
 
 impl Variant {
+    /// Whether the variant maps directly to the value of its only field.
+    pub fn is_newtype(&self) -> bool {
+        self.fields.is_newtype() && !self.fields.fields[0].skip.is_present()
+    }
+
     pub fn to_cbor_key_expr(&self) -> TokenStream {
         self.rename
             .as_ref()
diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 7dbe71c..9730fc1 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -287,7 +287,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             let variant_ident = &variant.ident;
             let key = variant.to_cbor_key_expr();
 
-            let decoder = if variant.fields.is_newtype() {
+            let decoder = if variant.is_newtype() {
                 // Newtype variants map the key directly to the inner value as if transparent was used.
                 let decode_fn = newtype_decode_fn(&variant.ident, variant.fields.fields.first());
                 quote!(Self::#variant_ident(#decode_fn(value)?))
diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 7b57958..b11e6e3 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -316,7 +316,7 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                 }
             } else {
                 // For others, encode as a map.
-                if variant.fields.is_newtype() {
+                if variant.is_newtype() {
                     // Newtype variants map the key directly to the inner value as if transparent was used.
                     let value = newtype_value(&variant.fields.fields[0], quote!(inner));
                     let inner = quote!(#encode_fn(#value));
-- 
2.43.0

