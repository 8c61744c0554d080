From 044299c85b00f5f614c87da142d4b272c4f8770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 01/16] fix: read enum variant names of internally tagged trait
 objects as strings

Serialization writes the inner variant name as a string map key. The
deserializer asked the format for an identifier instead, which compact
formats such as postcard and bincode do not support for map keys.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From b6c217e988b36a16ef8bcb08759b13d03391a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 02/16] fix: deserialize held back internally tagged entries
 like directly read ones

When the tag is not the first entry, or is absent and defaulted, the
entries read so far were handed to the implementation as a plain map, so
primitives, strings, sequences, tuples, units and options, which are
written under the "value" key, were rejected.
---
 src/internally.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..b209a62 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -7,9 +7,9 @@ use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use serde::de::value::MapDeserializer;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut rest = MapDeserializer::new(entries.into_iter());
+        let ret = fn_apply.deserialize(MapWithStringKeys { map: &mut rest })?;
+        rest.end()?;
+        Ok(ret)
     }
 }
 
-- 
2.43.0


From c09c942f87b67daebb5f9a648577a33b514cf947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 03/16] fix: support all key types in maps inside internally
 tagged trait objects

Keys of every type were read as strings, so maps keyed by newtypes, enums,
options, integers, bools or chars could be serialized but not deserialized.
---
 src/internally.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index b209a62..2774a99 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -625,6 +625,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! forward_key_to_delegate {
+    ($($method:ident($($arg:ident: $ty:ty),*))*) => {
+        $(
+            fn $method<V>(self, $($arg: $ty,)* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method($($arg,)* visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -638,10 +651,39 @@ where
         self.delegate.deserialize_str(visitor)
     }
 
+    // Keys of a map which are not plain strings.
+    forward_key_to_delegate! {
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_string()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
+    }
+
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        str identifier ignored_any
     }
 }
 
-- 
2.43.0


From f4ca0da1b9058e1703067e26c00a1c990ecc2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 04/16] fix: accept every integer and float width for held back
 floats

Content held back until the tag is known offered only u64 and i64 (and not
f32 for f64) to an implementation asking for a float, so formats which
report narrower integers failed depending on the position of the tag.
---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..35728e6 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 85061bca343a5292dadab266adfaf8fd9a08c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 05/16] fix: accept every unsigned width for held back
 identifiers

Formats which number fields and report the number wider than u8 were
accepted or rejected depending on the position of the tag.
---
 src/content.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index 35728e6..7fb6802 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -707,6 +707,9 @@ where
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::U8(v) => visitor.visit_u8(v),
+            Content::U16(v) => visitor.visit_u16(v),
+            Content::U32(v) => visitor.visit_u32(v),
+            Content::U64(v) => visitor.visit_u64(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
-- 
2.43.0


From e43f64461bc5420203d562d6dbf310bdfac3af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 06/16] fix: hold back 128-bit integers

Content held back until the tag is known had no 128-bit integers and
rejected requests for them, so i128 and u128 fields could be deserialized
only when the tag came first.
---
 src/content.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index 7fb6802..7f52110 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -20,11 +20,13 @@ pub enum Content<'de> {
     U16(u16),
     U32(u32),
     U64(u64),
+    U128(u128),
 
     I8(i8),
     I16(i16),
     I32(i32),
     I64(i64),
+    I128(i128),
 
     F32(f32),
     F64(f64),
@@ -52,10 +54,12 @@ impl<'de> Content<'de> {
             Content::U16(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U32(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U64(n) => Unexpected::Unsigned(n),
+            Content::U128(_) => Unexpected::Other("u128"),
             Content::I8(n) => Unexpected::Signed(i64::from(n)),
             Content::I16(n) => Unexpected::Signed(i64::from(n)),
             Content::I32(n) => Unexpected::Signed(i64::from(n)),
             Content::I64(n) => Unexpected::Signed(n),
+            Content::I128(_) => Unexpected::Other("i128"),
             Content::F32(f) => Unexpected::Float(f64::from(f)),
             Content::F64(f) => Unexpected::Float(f),
             Content::Char(c) => Unexpected::Char(c),
@@ -130,6 +134,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::I64(value))
     }
 
+    fn visit_i128<F>(self, value: i128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::I128(value))
+    }
+
     fn visit_u8<F>(self, value: u8) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -158,6 +169,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::U64(value))
     }
 
+    fn visit_u128<F>(self, value: u128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::U128(value))
+    }
+
     fn visit_f32<F>(self, value: f32) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -325,10 +343,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -390,10 +410,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             Content::F32(v) => visitor.visit_f32(v),
             Content::F64(v) => visitor.visit_f64(v),
             Content::Char(v) => visitor.visit_char(v),
@@ -448,6 +470,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -476,6 +505,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
-- 
2.43.0


From a156f9aa45c5a06306b1c82bead6592e218ab964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 07/16] fix: accept held back tuple variants without fields

A tuple or struct variant without fields, held back until the tag is known,
was visited as a unit, which derived enums reject.
---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 7f52110..5121ed3 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -922,16 +922,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From d6b438b1116d80acf754430ac326adb80b8239a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 08/16] fix: serialize held back elements with the format's
 human readability

Elements of sequences, tuples, tuple structs and enum variants inside an
internally tagged trait object were serialized as if for a human readable
format, but deserialized according to the actual format, which corrupted
values such as IP addresses in compact formats.
---
 src/ser.rs | 102 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 26 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..18ffbeb 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -186,17 +186,19 @@ where
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeSeqAsMapValue::new(map, len))
+        Ok(SerializeSeqAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleAsMapValue::new(map, len))
+        Ok(SerializeTupleAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple_struct(
@@ -204,10 +206,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_tuple_variant(
@@ -217,10 +225,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
@@ -246,23 +260,31 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeStructVariantAsMapValue::new(map, name, len))
+        Ok(SerializeStructVariantAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeSeqAsMapValue<M> {
-    pub fn new(map: M, len: Option<usize>) -> Self {
+    pub fn new(map: M, len: Option<usize>, human_readable: bool) -> Self {
         SerializeSeqAsMapValue {
             map,
             fields: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable,
         }
     }
 }
@@ -278,7 +300,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -292,13 +314,15 @@ where
 pub struct SerializeTupleAsMapValue<M> {
     map: M,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleAsMapValue<M> {
-    pub fn new(map: M, len: usize) -> Self {
+    pub fn new(map: M, len: usize, human_readable: bool) -> Self {
         SerializeTupleAsMapValue {
             map,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -314,7 +338,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -329,14 +353,16 @@ pub struct SerializeTupleStructAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
 }
 
 impl<M> SerializeTupleStructAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeTupleStructAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -352,7 +378,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -375,7 +401,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -432,14 +458,16 @@ pub struct SerializeStructVariantAsMapValue<M> {
     map: M,
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
 }
 
 impl<M> SerializeStructVariantAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeStructVariantAsMapValue {
             map,
             name,
             fields: Vec::with_capacity(len),
+            human_readable,
         }
     }
 }
@@ -455,7 +483,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -592,12 +620,16 @@ impl Serialize for Content {
 }
 
 pub struct ContentSerializer<E> {
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
 impl<E> ContentSerializer<E> {
-    pub fn new() -> Self {
-        ContentSerializer { error: PhantomData }
+    pub fn new(human_readable: bool) -> Self {
+        ContentSerializer {
+            human_readable,
+            error: PhantomData,
+        }
     }
 }
 
@@ -739,6 +771,7 @@ where
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, E> {
         Ok(ContentSerializeSeq {
             elements: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -746,6 +779,7 @@ where
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, E> {
         Ok(ContentSerializeTuple {
             elements: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -758,6 +792,7 @@ where
         Ok(ContentSerializeTupleStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -774,6 +809,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -782,6 +818,7 @@ where
         Ok(ContentSerializeMap {
             entries: Vec::with_capacity(len.unwrap_or(0)),
             key: None,
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -790,6 +827,7 @@ where
         Ok(ContentSerializeStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -806,13 +844,19 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 pub struct ContentSerializeSeq<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -827,7 +871,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -839,6 +883,7 @@ where
 
 pub struct ContentSerializeTuple<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -853,7 +898,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -866,6 +911,7 @@ where
 pub struct ContentSerializeTupleStruct<E> {
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -880,7 +926,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -895,6 +941,7 @@ pub struct ContentSerializeTupleVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -909,7 +956,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -927,6 +974,7 @@ where
 pub struct ContentSerializeMap<E> {
     entries: Vec<(Content, Content)>,
     key: Option<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -941,7 +989,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.key = Some(key);
         Ok(())
     }
@@ -954,7 +1002,7 @@ where
             .key
             .take()
             .expect("serialize_value called before serialize_key");
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -968,8 +1016,8 @@ where
         K: ?Sized + Serialize,
         V: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -978,6 +1026,7 @@ where
 pub struct ContentSerializeStruct<E> {
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -992,7 +1041,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -1007,6 +1056,7 @@ pub struct ContentSerializeStructVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1021,7 +1071,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
-- 
2.43.0


From 13e619a7c0e03859b56d7e80f4dbd6bbb6fa1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 09/16] fix: deserialize options and keys with the format's
 human readability

The payload of Some and the keys of maps inside an internally tagged trait
object were serialized according to the format, but deserialized as if it
was always human readable.
---
 src/internally.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 2774a99..4d08203 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -48,6 +48,7 @@ where
         tag,
         default_variant,
         registry,
+        human_readable: deserializer.is_human_readable(),
     };
     deserializer.deserialize_map(visitor)
 }
@@ -59,6 +60,7 @@ struct TaggedVisitor<T: ?Sized + 'static> {
     tag: &'static str,
     default_variant: Option<&'static str>,
     registry: &'static Registry<T>,
+    human_readable: bool,
 }
 
 impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
@@ -93,7 +95,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         let fn_apply = FnApply {
                             deserialize_fn: value,
                         };
-                        let rest = MapWithStringKeys { map };
+                        let rest = MapWithStringKeys {
+                            map,
+                            human_readable: self.human_readable,
+                        };
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
@@ -122,7 +127,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
 
         let fn_apply = FnApply { deserialize_fn };
         let mut rest = MapDeserializer::new(entries.into_iter());
-        let ret = fn_apply.deserialize(MapWithStringKeys { map: &mut rest })?;
+        let ret = fn_apply.deserialize(MapWithStringKeys {
+            map: &mut rest,
+            human_readable: true,
+        })?;
         rest.end()?;
         Ok(ret)
     }
@@ -171,6 +179,7 @@ impl<'de> DeserializeSeed<'de> for KeyVisitor {
 
 struct MapWithStringKeys<A> {
     map: A,
+    human_readable: bool,
 }
 
 impl<'de, A> MapWithStringKeys<A>
@@ -358,7 +367,10 @@ where
     {
         match self.map.next_key_seed(DefaultKey)? {
             None => visitor.visit_none(),
-            Some(()) => visitor.visit_some(MapValueAsDeserializer { map: self.map }),
+            Some(()) => visitor.visit_some(MapValueAsDeserializer {
+                map: self.map,
+                human_readable: self.human_readable,
+            }),
         }
     }
 
@@ -685,6 +697,10 @@ where
     forward_to_deserialize_any! {
         str identifier ignored_any
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
+    }
 }
 
 struct DefaultKey;
@@ -721,6 +737,7 @@ impl<'de> DeserializeSeed<'de> for DefaultKey {
 
 struct MapValueAsDeserializer<A> {
     map: A,
+    human_readable: bool,
 }
 
 macro_rules! deserialize_map_value {
@@ -1019,4 +1036,8 @@ where
     {
         deserialize_map_value!(self, deserialize_ignored_any, visitor)
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
-- 
2.43.0


From 37caa378f812852d8c81d9f951163fa453dd354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 10/16] fix: deserialize held back content with the format's
 human readability

Content held back until the tag is known was deserialized as if the format
was human readable, so in self-describing binary formats values such as IP
addresses could be deserialized only when the tag came first.
---
 src/adjacently.rs |   8 ++--
 src/content.rs    | 112 +++++++++++++++++++++++++++++-----------------
 src/internally.rs |  12 +++--
 3 files changed, 85 insertions(+), 47 deletions(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index a8b317a..ed3cb0e 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::{Content, ContentDeserializer};
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::Wrap;
@@ -46,6 +46,7 @@ where
         default_variant,
         registry,
         deny_unknown_fields,
+        human_readable: deserializer.is_human_readable(),
     };
     deserializer.deserialize_struct(trait_object, field_names, visitor)
 }
@@ -56,6 +57,7 @@ struct TaggedVisitor<T: ?Sized + 'static> {
     default_variant: Option<&'static str>,
     registry: &'static Registry<T>,
     deny_unknown_fields: bool,
+    human_readable: bool,
 }
 
 impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
@@ -130,7 +132,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         // Parse the tag.
                         let deserialize_fn = map.next_value_seed(map_lookup)?;
                         let fn_apply = FnApply { deserialize_fn };
-                        let content = content.into_deserializer();
+                        let content = ContentDeserializer::new(content, self.human_readable);
                         fn_apply.deserialize(content)?
                     }
                     // Second key is a duplicate of the content.
@@ -142,7 +144,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         if let Some(variant) = self.default_variant {
                             let deserialize_fn = map_lookup.visit_str(variant)?;
                             let fn_apply = FnApply { deserialize_fn };
-                            let content = content.into_deserializer();
+                            let content = ContentDeserializer::new(content, self.human_readable);
                             fn_apply.deserialize(content)?
                         } else {
                             // No variant is specified and there is no default variant.
diff --git a/src/content.rs b/src/content.rs
index 5121ed3..35395bd 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -301,20 +301,10 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
 
 pub struct ContentDeserializer<'de, E> {
     content: Content<'de>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
-impl<'de, E> IntoDeserializer<'de, E> for Content<'de>
-where
-    E: de::Error,
-{
-    type Deserializer = ContentDeserializer<'de, E>;
-
-    fn into_deserializer(self) -> Self::Deserializer {
-        ContentDeserializer::new(self)
-    }
-}
-
 impl<'de, E> IntoDeserializer<'de, E> for ContentDeserializer<'de, E>
 where
     E: de::Error,
@@ -365,12 +355,18 @@ where
     }
 }
 
-fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
+fn visit_content_seq<'de, V, E>(
+    content: Vec<Content<'de>>,
+    human_readable: bool,
+    visitor: V,
+) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let seq = content.into_iter().map(ContentDeserializer::new);
+    let seq = content
+        .into_iter()
+        .map(|v| ContentDeserializer::new(v, human_readable));
     let mut seq_visitor = value::SeqDeserializer::new(seq);
     let value = visitor.visit_seq(&mut seq_visitor)?;
     seq_visitor.end()?;
@@ -379,15 +375,19 @@ where
 
 fn visit_content_map<'de, V, E>(
     content: Vec<(Content<'de>, Content<'de>)>,
+    human_readable: bool,
     visitor: V,
 ) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let map = content
-        .into_iter()
-        .map(|(k, v)| (ContentDeserializer::new(k), ContentDeserializer::new(v)));
+    let map = content.into_iter().map(|(k, v)| {
+        (
+            ContentDeserializer::new(k, human_readable),
+            ContentDeserializer::new(v, human_readable),
+        )
+    });
     let mut map_visitor = value::MapDeserializer::new(map);
     let value = visitor.visit_map(&mut map_visitor)?;
     map_visitor.end()?;
@@ -425,10 +425,14 @@ where
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::Unit => visitor.visit_unit(),
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
         }
     }
 
@@ -574,7 +578,7 @@ where
             Content::Str(v) => visitor.visit_borrowed_str(v),
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -585,7 +589,9 @@ where
     {
         match self.content {
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
             Content::Unit => visitor.visit_unit(),
             _ => visitor.visit_some(self),
         }
@@ -634,7 +640,9 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
             _ => visitor.visit_newtype_struct(self),
         }
     }
@@ -644,7 +652,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -673,7 +681,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -688,8 +696,8 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -730,7 +738,7 @@ where
             }
         };
 
-        visitor.visit_enum(EnumDeserializer::new(variant, value))
+        visitor.visit_enum(EnumDeserializer::new(variant, value, self.human_readable))
     }
 
     fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -757,12 +765,17 @@ where
         drop(self);
         visitor.visit_unit()
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 impl<'de, E> ContentDeserializer<'de, E> {
-    fn new(content: Content<'de>) -> Self {
+    pub fn new(content: Content<'de>, human_readable: bool) -> Self {
         ContentDeserializer {
             content,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -774,6 +787,7 @@ where
 {
     variant: Content<'de>,
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -781,10 +795,15 @@ impl<'de, E> EnumDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(variant: Content<'de>, value: Option<Content<'de>>) -> EnumDeserializer<'de, E> {
+    fn new(
+        variant: Content<'de>,
+        value: Option<Content<'de>>,
+        human_readable: bool,
+    ) -> EnumDeserializer<'de, E> {
         EnumDeserializer {
             variant,
             value,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -803,9 +822,10 @@ where
     {
         let visitor = VariantDeserializer {
             value: self.value,
+            human_readable: self.human_readable,
             err: PhantomData,
         };
-        seed.deserialize(ContentDeserializer::new(self.variant))
+        seed.deserialize(ContentDeserializer::new(self.variant, self.human_readable))
             .map(|v| (v, visitor))
     }
 }
@@ -815,6 +835,7 @@ where
     E: de::Error,
 {
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -826,7 +847,9 @@ where
 
     fn unit_variant(self) -> Result<(), E> {
         match self.value {
-            Some(value) => Deserialize::deserialize(ContentDeserializer::new(value)),
+            Some(value) => {
+                Deserialize::deserialize(ContentDeserializer::new(value, self.human_readable))
+            }
             None => Ok(()),
         }
     }
@@ -836,7 +859,7 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.value {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
+            Some(value) => seed.deserialize(ContentDeserializer::new(value, self.human_readable)),
             None => Err(de::Error::invalid_type(
                 Unexpected::UnitVariant,
                 &"newtype variant",
@@ -850,7 +873,7 @@ where
     {
         match self.value {
             Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(SeqDeserializer::new(v, self.human_readable), visitor)
             }
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
@@ -873,10 +896,10 @@ where
     {
         match self.value {
             Some(Content::Map(v)) => {
-                Deserializer::deserialize_any(MapDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(MapDeserializer::new(v, self.human_readable), visitor)
             }
             Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(SeqDeserializer::new(v, self.human_readable), visitor)
             }
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
@@ -895,6 +918,7 @@ where
     E: de::Error,
 {
     iter: <Vec<Content<'de>> as IntoIterator>::IntoIter,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -902,9 +926,10 @@ impl<'de, E> SeqDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(vec: Vec<Content<'de>>) -> Self {
+    fn new(vec: Vec<Content<'de>>, human_readable: bool) -> Self {
         SeqDeserializer {
             iter: vec.into_iter(),
+            human_readable,
             err: PhantomData,
         }
     }
@@ -949,7 +974,9 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.iter.next() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)).map(Some),
+            Some(value) => seed
+                .deserialize(ContentDeserializer::new(value, self.human_readable))
+                .map(Some),
             None => Ok(None),
         }
     }
@@ -961,6 +988,7 @@ where
 {
     iter: <Vec<(Content<'de>, Content<'de>)> as IntoIterator>::IntoIter,
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -968,10 +996,11 @@ impl<'de, E> MapDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(map: Vec<(Content<'de>, Content<'de>)>) -> Self {
+    fn new(map: Vec<(Content<'de>, Content<'de>)>, human_readable: bool) -> Self {
         MapDeserializer {
             iter: map.into_iter(),
             value: None,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -990,7 +1019,8 @@ where
         match self.iter.next() {
             Some((key, value)) => {
                 self.value = Some(value);
-                seed.deserialize(ContentDeserializer::new(key)).map(Some)
+                seed.deserialize(ContentDeserializer::new(key, self.human_readable))
+                    .map(Some)
             }
             None => Ok(None),
         }
@@ -1001,7 +1031,7 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.value.take() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
+            Some(value) => seed.deserialize(ContentDeserializer::new(value, self.human_readable)),
             None => Err(de::Error::custom("value is missing")),
         }
     }
diff --git a/src/internally.rs b/src/internally.rs
index 4d08203..dea2fdc 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::{Content, ContentDeserializer};
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
@@ -126,10 +126,16 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let mut rest = MapDeserializer::new(entries.into_iter());
+        let human_readable = self.human_readable;
+        let mut rest = MapDeserializer::new(entries.into_iter().map(|(key, value)| {
+            (
+                ContentDeserializer::new(key, human_readable),
+                ContentDeserializer::new(value, human_readable),
+            )
+        }));
         let ret = fn_apply.deserialize(MapWithStringKeys {
             map: &mut rest,
-            human_readable: true,
+            human_readable,
         })?;
         rest.end()?;
         Ok(ret)
-- 
2.43.0


From 5892817727c899e3e84c669b0d585cc21b9235be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 11/16] fix: report the format's human readability in nested
 internally tagged values

---
 src/internally.rs | 4 ++++
 src/ser.rs        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/internally.rs b/src/internally.rs
index dea2fdc..bee233f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -491,6 +491,10 @@ where
         }
         visitor.visit_unit()
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 impl<'de, A> MapAccess<'de> for MapWithStringKeys<A>
diff --git a/src/ser.rs b/src/ser.rs
index 18ffbeb..1dfd2ac 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -271,6 +271,10 @@ where
             human_readable,
         ))
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
+    }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
-- 
2.43.0


From 50cfae363e3065f4f50124500ab69e12dac085dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 12/16] fix: serialize bytes as bytes under internal tagging

---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 1dfd2ac..01d4ed5 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,17 @@ where
     }
 }
 
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +133,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From a9cf3b8236fbbc7e287b62b41921c5a3d5aec475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 13/16] fix: reject surplus entries of externally tagged trait
 objects

Formats like CBOR, which leave it to the visitor to read a map to its end,
took the first entry for the object and derailed on the others.
---
 src/externally.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/externally.rs b/src/externally.rs
index 4369b34..71e7aba 100644
--- a/src/externally.rs
+++ b/src/externally.rs
@@ -3,7 +3,7 @@ use crate::private::Registry;
 use crate::ser::Wrap;
 use alloc::boxed::Box;
 use core::fmt;
-use serde::de::{self, Deserializer, MapAccess, Visitor};
+use serde::de::{self, Deserializer, IgnoredAny, MapAccess, Visitor};
 use serde::ser::{SerializeMap, Serializer};
 
 pub fn serialize<S, T>(
@@ -62,6 +62,14 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                 self.trait_object
             )));
         };
-        map.next_value_seed(FnApply { deserialize_fn })
+        let ret = map.next_value_seed(FnApply { deserialize_fn })?;
+        // Not every format checks on its own that no entry is left over.
+        if map.next_key::<IgnoredAny>()?.is_some() {
+            return Err(de::Error::custom(format_args!(
+                "expected externally tagged dyn {} with a single entry",
+                self.trait_object
+            )));
+        }
+        Ok(ret)
     }
 }
-- 
2.43.0


From 9148f008b7b318cadc5b3d38c127cdcc0f076838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 14/16] fix: do not read past the end of adjacently tagged maps
 without a tag

A key was asked for again after the map had ended, which in CBOR maps of
indefinite length runs into whatever follows the map.
---
 src/adjacently.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index ed3cb0e..c92491c 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -145,7 +145,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                             let deserialize_fn = map_lookup.visit_str(variant)?;
                             let fn_apply = FnApply { deserialize_fn };
                             let content = ContentDeserializer::new(content, self.human_readable);
-                            fn_apply.deserialize(content)?
+                            return fn_apply.deserialize(content);
                         } else {
                             // No variant is specified and there is no default variant.
                             return Err(de::Error::missing_field(tag_field_name));
-- 
2.43.0


From 30c2a297952bf8008aaf8b3f1dc24f9e2ed9d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 15/16] fix: reject surplus entries of internally tagged trait
 objects

Implementations that are a unit, an option, an enum or a single value left
the rest of the map unread when the tag came first. In formats like CBOR,
which leave it to the visitor to read a map to its end, such input was
accepted and derailed the reading of what follows; with the tag in another
place it was rejected.
---
 src/internally.rs | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index bee233f..b7c2da6 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -183,6 +183,17 @@ impl<'de> DeserializeSeed<'de> for KeyVisitor {
     }
 }
 
+// Not every format checks on its own that no entry is left over.
+fn end_of_map<'de, A>(map: &mut A) -> Result<(), A::Error>
+where
+    A: MapAccess<'de>,
+{
+    match map.next_key::<IgnoredAny>()? {
+        None => Ok(()),
+        Some(IgnoredAny) => Err(de::Error::custom("unexpected surplus entry in map")),
+    }
+}
+
 struct MapWithStringKeys<A> {
     map: A,
     human_readable: bool,
@@ -224,7 +235,9 @@ macro_rules! deserialize_default_key {
 
         let mut this = $self;
         this.try_default_key()?;
-        this.map.next_value_seed(Wrap { $($k,)* $visitor })
+        let value = this.map.next_value_seed(Wrap { $($k,)* $visitor })?;
+        end_of_map(&mut this.map)?;
+        Ok(value)
     }};
 }
 
@@ -380,21 +393,23 @@ where
         }
     }
 
-    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_unit<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
+        end_of_map(&mut self.map)?;
         visitor.visit_unit()
     }
 
     fn deserialize_unit_struct<V>(
-        self,
+        mut self,
         _name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
+        end_of_map(&mut self.map)?;
         visitor.visit_unit()
     }
 
@@ -488,6 +503,7 @@ where
     {
         if self.map.next_key_seed(DefaultKey)?.is_some() {
             self.map.next_value::<IgnoredAny>()?;
+            end_of_map(&mut self.map)?;
         }
         visitor.visit_unit()
     }
@@ -551,14 +567,17 @@ where
     type Error = A::Error;
 
     fn unit_variant(mut self) -> Result<(), Self::Error> {
-        self.map.next_value()
+        self.map.next_value::<()>()?;
+        end_of_map(&mut self.map)
     }
 
     fn newtype_variant_seed<T>(mut self, seed: T) -> Result<T::Value, Self::Error>
     where
         T: DeserializeSeed<'de>,
     {
-        self.map.next_value_seed(seed)
+        let value = self.map.next_value_seed(seed)?;
+        end_of_map(&mut self.map)?;
+        Ok(value)
     }
 
     fn tuple_variant<V>(mut self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -584,7 +603,9 @@ where
             }
         }
 
-        self.map.next_value_seed(Wrap { len, visitor })
+        let value = self.map.next_value_seed(Wrap { len, visitor })?;
+        end_of_map(&mut self.map)?;
+        Ok(value)
     }
 
     fn struct_variant<V>(
@@ -615,11 +636,13 @@ where
             }
         }
 
-        self.map.next_value_seed(Wrap {
+        let value = self.map.next_value_seed(Wrap {
             name: self.name,
             fields,
             visitor,
-        })
+        })?;
+        end_of_map(&mut self.map)?;
+        Ok(value)
     }
 }
 
@@ -774,7 +797,9 @@ macro_rules! deserialize_map_value {
         }
 
         let mut this = $self;
-        this.map.next_value_seed(Wrap { $($k,)* $visitor })
+        let value = this.map.next_value_seed(Wrap { $($k,)* $visitor })?;
+        end_of_map(&mut this.map)?;
+        Ok(value)
     }};
 }
 
-- 
2.43.0


From da76b50d884734b2eb6a51c2cfeb162d5ff2e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 16/16] fix: compare a struct's own tag field in the form of
 the format

---
 src/is_serialize_str.rs | 16 ++++++++++++++--
 src/ser.rs              | 20 ++++++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/is_serialize_str.rs b/src/is_serialize_str.rs
index 1116a41..cdd8970 100644
--- a/src/is_serialize_str.rs
+++ b/src/is_serialize_str.rs
@@ -7,11 +7,18 @@ use alloc::boxed::Box;
 use core::fmt::{self, Debug, Display};
 use serde::ser::{self, Error, Impossible, Serialize, StdError};
 
-pub fn expect_str<T>(value: &T, expected_str: &'static str) -> Result<(), Unexpected>
+pub fn expect_str<T>(
+    value: &T,
+    expected_str: &'static str,
+    human_readable: bool,
+) -> Result<(), Unexpected>
 where
     T: ?Sized + Serialize,
 {
-    match value.serialize(Serializer { expected_str }) {
+    match value.serialize(Serializer {
+        expected_str,
+        human_readable,
+    }) {
         Err(SerializerState::Ok) => Ok(()),
         Err(SerializerState::UnexpectedStr(string)) => Err(Unexpected::Str(string)),
         Err(SerializerState::UnexpectedKind) => Err(Unexpected::NonStr),
@@ -59,6 +66,7 @@ impl Display for SerializerState {
 
 struct Serializer {
     expected_str: &'static str,
+    human_readable: bool,
 }
 
 impl ser::Serializer for Serializer {
@@ -232,4 +240,8 @@ impl ser::Serializer for Serializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(SerializerState::UnexpectedKind)
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
diff --git a/src/ser.rs b/src/ser.rs
index 01d4ed5..057fa64 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -259,9 +259,15 @@ where
         _: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut state = self.delegate.serialize_map(Some(len + 1))?;
         state.serialize_entry(self.tag, self.variant)?;
-        Ok(SerializeStructAsMap::new(state, self.tag, self.variant))
+        Ok(SerializeStructAsMap::new(
+            state,
+            self.tag,
+            self.variant,
+            human_readable,
+        ))
     }
 
     fn serialize_struct_variant(
@@ -432,11 +438,17 @@ pub struct SerializeStructAsMap<M> {
     map: M,
     tag: &'static str,
     variant: &'static str,
+    human_readable: bool,
 }
 
 impl<M> SerializeStructAsMap<M> {
-    fn new(map: M, tag: &'static str, variant: &'static str) -> Self {
-        SerializeStructAsMap { map, tag, variant }
+    fn new(map: M, tag: &'static str, variant: &'static str, human_readable: bool) -> Self {
+        SerializeStructAsMap {
+            map,
+            tag,
+            variant,
+            human_readable,
+        }
     }
 }
 
@@ -452,7 +464,7 @@ where
         T: ?Sized + Serialize,
     {
         if key == self.tag {
-            match expect_str(value, self.variant) {
+            match expect_str(value, self.variant, self.human_readable) {
                 Ok(()) => Ok(()),
                 Err(unexpected) => Err(ser::Error::custom(format!(
                     "mismatched value for tag {:?}: {:?} vs {:?}",
-- 
2.43.0

