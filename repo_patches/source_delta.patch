From 82061ae381c74a38d766e87742af7754d9110bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 1/7] fix: read enum variant names of internally tagged impls
 as strings

Internally tagged enums are written as {tag: .., variant name: contents}, with
the variant name a string. Read it back with deserialize_str, like struct field
names, rather than deserialize_identifier, which compact formats such as
bincode and postcard do not support.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From addeda8082bfc4ae9c8a1fba477e49204b9231ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 2/7] fix: write byte strings of internally tagged impls as
 bytes

The Serialize impl of [u8] writes a sequence of integers, which is not what
deserialize_bytes reads back in formats that have a byte string type.
---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..3fb26d3 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -122,7 +122,18 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        struct Bytes<'a>(&'a [u8]);
+
+        impl<'a> Serialize for Bytes<'a> {
+            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            where
+                S: Serializer,
+            {
+                serializer.serialize_bytes(self.0)
+            }
+        }
+
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 3f0f099a05e3f409f26d8ef37c0a0fe9e12bc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 3/7] fix: support non-string map keys in internally tagged
 impls

An internally tagged map is written with its keys as they are, but every key
was read back with deserialize_str, so that a map with integer, enum or other
non-string keys failed to deserialize in every format.
---
 src/internally.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..5002381 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -623,6 +623,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! forward_to_delegate {
+    ($($method:ident($($k:ident : $ty:ty),*))*) => {
+        $(
+            fn $method<V>(self, $($k: $ty,)* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method($($k,)* visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -637,9 +650,37 @@ where
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        str string identifier ignored_any
+    }
+
+    // Keys of a map are not necessarily strings.
+    forward_to_delegate! {
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
     }
 }
 
-- 
2.43.0


From 83d52aa96feab01a4b28da33d3e918e28590779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 4/7] fix: find scalar and sequence contents when an internal
 tag is not first

Values that are not structs or maps are written under the "value" key (enums:
under the variant name). This was undone only if the tag is the first entry
or, with serde_json::Value and other formats that reorder entries, the
contents failed to deserialize. Replay buffered entries through the same
MapWithStringKeys as entries that are still to be read.
---
 src/internally.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 5002381..759ee8f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -7,6 +7,7 @@ use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use serde::de::value::MapDeserializer;
 use serde::de::{
     self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
     VariantAccess, Visitor,
@@ -121,8 +122,13 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let entries = entries
+            .into_iter()
+            .map(|(key, value)| (key.into_deserializer(), value.into_deserializer()));
+        let mut map = MapDeserializer::new(entries);
+        let ret = fn_apply.deserialize(MapWithStringKeys { map: &mut map })?;
+        map.end()?;
+        Ok(ret)
     }
 }
 
-- 
2.43.0


From 05e825846bb017d1f49bcbca8a275a54054c1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 5/7] fix: accept buffered floats and integers of every width
 as floats

A self-describing format may deliver a float in fewer bits than the field has,
or an integral float as an integer of any width. ContentDeserializer refused
f32 for an f64 field, and all integers but u64 and i64.
---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..35728e6 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From d71b70ef7b8665340bb27e0b3b82240650ba2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 6/7] fix: buffer 128-bit integers

A trait object with an i128 or u128 field too large for 64 bits could not be
deserialized if its tag was not the first entry of the message, because there
was no way to buffer the field.
---
 src/content.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index 35728e6..9dc7489 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -20,11 +20,13 @@ pub enum Content<'de> {
     U16(u16),
     U32(u32),
     U64(u64),
+    U128(u128),
 
     I8(i8),
     I16(i16),
     I32(i32),
     I64(i64),
+    I128(i128),
 
     F32(f32),
     F64(f64),
@@ -52,10 +54,12 @@ impl<'de> Content<'de> {
             Content::U16(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U32(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U64(n) => Unexpected::Unsigned(n),
+            Content::U128(_) => Unexpected::Other("integer `u128`"),
             Content::I8(n) => Unexpected::Signed(i64::from(n)),
             Content::I16(n) => Unexpected::Signed(i64::from(n)),
             Content::I32(n) => Unexpected::Signed(i64::from(n)),
             Content::I64(n) => Unexpected::Signed(n),
+            Content::I128(_) => Unexpected::Other("integer `i128`"),
             Content::F32(f) => Unexpected::Float(f64::from(f)),
             Content::F64(f) => Unexpected::Float(f),
             Content::Char(c) => Unexpected::Char(c),
@@ -130,6 +134,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::I64(value))
     }
 
+    fn visit_i128<F>(self, value: i128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::I128(value))
+    }
+
     fn visit_u8<F>(self, value: u8) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -158,6 +169,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::U64(value))
     }
 
+    fn visit_u128<F>(self, value: u128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::U128(value))
+    }
+
     fn visit_f32<F>(self, value: f32) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -325,10 +343,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -390,10 +410,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             Content::F32(v) => visitor.visit_f32(v),
             Content::F64(v) => visitor.visit_f64(v),
             Content::Char(v) => visitor.visit_char(v),
@@ -448,6 +470,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -476,6 +505,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
-- 
2.43.0


From e89f13e840f06280e164f0475244ffd8b4ccfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 7/7] fix: accept a buffered tuple variant that has no elements

An empty sequence was presented to the visitor of a tuple or struct variant as
a unit, which it does not accept.
---
 src/content.rs | 77 ++------------------------------------------------
 1 file changed, 2 insertions(+), 75 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 9dc7489..a46242f 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -846,9 +846,7 @@ where
         V: Visitor<'de>,
     {
         match self.value {
-            Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
-            }
+            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"tuple variant",
@@ -872,9 +870,7 @@ where
             Some(Content::Map(v)) => {
                 Deserializer::deserialize_any(MapDeserializer::new(v), visitor)
             }
-            Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
-            }
+            Some(Content::Seq(v)) => visit_content_seq(v, visitor),
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
                 &"struct variant",
@@ -887,75 +883,6 @@ where
     }
 }
 
-struct SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    iter: <Vec<Content<'de>> as IntoIterator>::IntoIter,
-    err: PhantomData<E>,
-}
-
-impl<'de, E> SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    fn new(vec: Vec<Content<'de>>) -> Self {
-        SeqDeserializer {
-            iter: vec.into_iter(),
-            err: PhantomData,
-        }
-    }
-}
-
-impl<'de, E> Deserializer<'de> for SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    #[inline]
-    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
-    where
-        V: Visitor<'de>,
-    {
-        let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
-        } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
-        }
-    }
-
-    forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
-    }
-}
-
-impl<'de, E> SeqAccess<'de> for SeqDeserializer<'de, E>
-where
-    E: de::Error,
-{
-    type Error = E;
-
-    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error>
-    where
-        T: DeserializeSeed<'de>,
-    {
-        match self.iter.next() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)).map(Some),
-            None => Ok(None),
-        }
-    }
-}
-
 struct MapDeserializer<'de, E>
 where
     E: de::Error,
-- 
2.43.0

