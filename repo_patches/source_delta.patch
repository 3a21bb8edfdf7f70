From c05620ed81cafb64a95bebe82ea0db5e7751f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/17] fix: register class metadata so that ClassWithId can
 refer to it

---
 src/binary_parser/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..2ea63fb 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -230,20 +230,20 @@ impl<'i> BinaryParser<'i> {
 
     let err_input = input;
 
-    let (input, (object_id, class)) = match ClassWithId::parse(input) {
+    let (input, (object_id, class, has_metadata)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
-          (input, (class_with_id.object_id(), class.clone()))
+          (input, (class_with_id.object_id(), class.clone(), false))
         } else {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
       },
       Err(nom::Err::Error(_)) => alt((
-        map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class))),
-        map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class))),
-        map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class))),
+        map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class), true)),
+        map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class), true)),
+        map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class), true)),
         map(SystemClassWithMembersAndTypes::parse, |class| {
-          (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
+          (class.object_id(), Class::SystemClassWithMembersAndTypes(class), true)
         }),
       ))
       .parse(input)?,
@@ -254,6 +254,11 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    // The metadata can be needed by the members of this very object, so it is registered before they are parsed.
+    if has_metadata {
+      self.classes.insert(object_id, class.clone());
+    }
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From 7ac482eadcbaf7a2b497b9afcbeedafcd9b7af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/17] fix: do not report a BinaryLibrary record as a
 duplicate of itself

---
 src/binary_parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 2ea63fb..2a20536 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -81,8 +81,13 @@ impl<'i> BinaryParser<'i> {
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
-        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+      let library_name = binary_library.library_name.as_str();
+
+      // The same record is parsed again when an alternative following it did not match, which is not a duplicate.
+      if let Some(previous) = self.binary_libraries.insert(library_id, binary_library.library_name) {
+        if !std::ptr::eq(previous.as_str(), library_name) {
+          return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+        }
       }
     }
 
-- 
2.43.0


From 02dd55c5a7238b72d5c92886c1144827f04f4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 03/17] fix: count a run of NULLs as that many array elements,
 and reject one longer than the space left

---
 src/binary_parser/mod.rs | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 2a20536..169d9de 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -204,11 +204,10 @@ impl<'i> BinaryParser<'i> {
         ValueOrRef::Value(value) => {
           members2.push(value);
         },
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
-          }
+        ValueOrRef::Null(1) => {
+          members2.push(Value::Null);
         },
+        ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
         ValueOrRef::Ref(id) => {
           if let Some(value) = self.objects.remove(&id.0) {
             members2.push(value);
@@ -326,10 +325,14 @@ impl<'i> BinaryParser<'i> {
 
     let len = array_single_object.array_info.len();
     while members.len() < len {
+      let err_input = input;
       let member;
       (input, member) = self.parse_member_reference(input, None)?;
 
       match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
@@ -372,10 +375,14 @@ impl<'i> BinaryParser<'i> {
 
     let len = array_single_string.array_info.len();
     while members.len() < len {
+      let err_input = input;
       let member;
       (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
 
       match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
@@ -397,19 +404,34 @@ impl<'i> BinaryParser<'i> {
   fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let err_input = input;
 
-    let (input, binary_array) = BinaryArray::parse(input)?;
+    let (mut input, binary_array) = BinaryArray::parse(input)?;
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
+    let mut members = vec![];
+
+    while members.len() < member_count {
+      let err_input = input;
+      let member;
+      (input, member) = self
+        .parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))?;
+
+      match member {
+        ValueOrRef::Null(count) if count > member_count - members.len() => {
+          return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
+        },
+        ValueOrRef::Null(count) => {
+          for _ in 0..count {
+            members.push(ValueOrRef::Value(Value::Null));
+          }
+        },
+        _ => {
+          members.push(member);
+        },
+      }
+    }
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From 40d7d5706a4409fdd7a84ce979579528b6899766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 04/17] fix: accept references and NULLs for members declared
 as strings, classes and arrays

---
 src/binary_parser/mod.rs | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 169d9de..14f5da6 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -109,9 +109,11 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
+        (BinaryType::String, None) => alt((
+          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          Self::parse_reference_or_null,
+        ))
+        .parse(input)?,
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -121,7 +123,7 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -140,22 +142,14 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null(input)?
           }
         },
-        (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
-        ))
-        .parse(input)?,
-        (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+        // Arrays are never inlined.
+        (BinaryType::ObjectArray, None)
+        | (BinaryType::StringArray, None)
+        | (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_))) => {
+          Self::parse_reference_or_null(input)?
         },
         _ => unreachable!(),
       }
@@ -377,7 +371,7 @@ impl<'i> BinaryParser<'i> {
     while members.len() < len {
       let err_input = input;
       let member;
-      (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
+      (input, member) = self.parse_member_reference(input, Some((BinaryType::String, None)))?;
 
       match member {
         ValueOrRef::Null(count) if count > len - members.len() => {
@@ -483,6 +477,15 @@ impl<'i> BinaryParser<'i> {
     Ok((input, object_id))
   }
 
+  /// 2.7 Binary Record Grammar - `MemberReference/nullObject`
+  fn parse_reference_or_null(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   /// 2.7 Binary Record Grammar - `nullObject`
   fn parse_null_object(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
     alt((
-- 
2.43.0


From 44720bde3dcfe3e1ca46686afc04f45f039f13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/17] fix: resolve every reference to a string, also to one
 that is a member itself

---
 src/binary_parser/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 14f5da6..61e8e17 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -110,7 +110,7 @@ impl<'i> BinaryParser<'i> {
         )
         .parse(input)?,
         (BinaryType::String, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_binary_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
           Self::parse_reference_or_null,
         ))
         .parse(input)?,
@@ -154,14 +154,13 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        map(|input| self.parse_binary_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -185,6 +184,14 @@ impl<'i> BinaryParser<'i> {
     Ok((input, member_references))
   }
 
+  /// Strings can be referenced any number of times, any other object belongs to the one place referencing it.
+  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+    match self.objects.get(&id.0) {
+      Some(Value::String(s)) => Some(Value::String(s)),
+      _ => self.objects.remove(&id.0),
+    }
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -203,13 +210,13 @@ impl<'i> BinaryParser<'i> {
         },
         ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
         ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
+          if let Some(value) = self.take_object(id) {
             members2.push(value);
           } else {
             let member2;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
+            if let Some(value) = self.take_object(member2) {
               members2.push(value);
             } else {
               return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
@@ -456,6 +463,16 @@ impl<'i> BinaryParser<'i> {
     )
   }
 
+  /// 2.7 Binary Record Grammar - `BinaryObjectString`
+  ///
+  /// The string can be referenced from anywhere else in the message, even if it is a member itself.
+  fn parse_binary_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, &'i str), Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    self.objects.insert(string.object_id(), Value::String(string.as_str()));
+    Ok((input, (RefId(string.object_id()), string.as_str())))
+  }
+
   /// 2.7 Binary Record Grammar - `referenceable`
   fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RefId, Error<'i>> {
     let (input, (object_id, object)) = alt_mut!(input =>
@@ -468,8 +485,8 @@ impl<'i> BinaryParser<'i> {
         |(object_id, array)| (object_id, Value::Array(array)),
       ),
       map(
-        BinaryObjectString::parse,
-        |s| (RefId(s.object_id()), Value::String(s.as_str())),
+        |input| self.parse_binary_object_string(input),
+        |(object_id, s)| (object_id, Value::String(s)),
       ),
     )?;
 
-- 
2.43.0


From dfb48d89c7a16db6334c65640e2908883b4aadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/17] fix: reject every object ID that is used twice, not
 only those of classes

---
 src/binary_parser/mod.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 61e8e17..0eb5899 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::{BTreeMap, BTreeSet, HashMap},
   num::NonZeroU32,
 };
 
@@ -56,6 +56,7 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
+  object_ids: BTreeSet<NonZeroU32>,
 }
 
 macro_rules! alt_mut {
@@ -94,6 +95,15 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Every class, array and string record needs an ID of its own.
+  fn register_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
+    if !self.object_ids.insert(object_id) {
+      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+    }
+
+    Ok(())
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -255,9 +265,7 @@ impl<'i> BinaryParser<'i> {
       Err(err) => return Err(err),
     };
 
-    if self.classes.contains_key(&object_id) {
-      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
-    }
+    self.register_object_id(input, object_id)?;
 
     // The metadata can be needed by the members of this very object, so it is registered before they are parsed.
     if has_metadata {
@@ -321,6 +329,7 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
   fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
+    self.register_object_id(input, array_single_object.object_id())?;
 
     let mut members = vec![];
 
@@ -354,6 +363,7 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `ArraySinglePrimitive *(MemberPrimitiveUnTyped)`
   fn parse_array_single_primitive(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, array_single_primitive) = ArraySinglePrimitive::parse(input)?;
+    self.register_object_id(input, array_single_primitive.object_id())?;
 
     let (input, members) = count(
       map(
@@ -371,6 +381,7 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (mut input, array_single_string) = ArraySingleString::parse(input)?;
+    self.register_object_id(input, array_single_string.object_id())?;
 
     let mut members = vec![];
 
@@ -406,6 +417,7 @@ impl<'i> BinaryParser<'i> {
     let err_input = input;
 
     let (mut input, binary_array) = BinaryArray::parse(input)?;
+    self.register_object_id(input, binary_array.object_id())?;
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
@@ -469,6 +481,7 @@ impl<'i> BinaryParser<'i> {
   fn parse_binary_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, &'i str), Error<'i>> {
     let (input, string) = BinaryObjectString::parse(input)?;
 
+    self.register_object_id(input, string.object_id())?;
     self.objects.insert(string.object_id(), Value::String(string.as_str()));
     Ok((input, (RefId(string.object_id()), string.as_str())))
   }
@@ -654,7 +667,9 @@ impl<'i> BinaryParser<'i> {
     let (mut input, method_call_or_return) =
       opt(|input| self.parse_method_call_or_return(input, header.root_id)).parse(input)?;
 
-    (input, ()) = self.parse_referenceables(input)?;
+    if method_call_or_return.is_some() {
+      (input, ()) = self.parse_referenceables(input)?;
+    }
 
     let (input, MessageEnd) = MessageEnd::parse(input)?;
 
-- 
2.43.0


From 5264df3ed6bd4b258d83463def780ddc8a73cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 07/17] fix: count RETURN_VALUE_INLINE among the exclusive
 return flags

---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 9fdb0d42bd629072960f7335f4c6624718902365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 08/17] fix: do not count a missing element of a List as an
 element

---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From beb8e01e100ef3dd616ebe0f1c9f4451eb01f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/17] fix: read the kind of a DateTime from its two most
 significant bits

---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..aea3a9d 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From d94d3e9e4af93e55d139129263619e284390116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 10/17] fix: deserialize a message into an Option like any
 other value

---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 505b429063d31b49e34b8c4ce9fa37bcf5e2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 11/17] fix: decode a Char as UTF-8

---
 src/data_type/char.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..db99b76 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,10 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
   branch::alt,
-  combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
+  bytes::complete::take,
+  combinator::{map, map_res},
 };
 
 use super::impl_primitive;
@@ -16,14 +18,19 @@ use crate::{
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct Char(pub char);
 
+fn single_char(bytes: &[u8]) -> Result<char, ()> {
+  str::from_utf8(bytes).ok().and_then(|s| s.parse().ok()).ok_or(())
+}
+
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
+    // UTF-8 encoded, so exactly one of these lengths can be a single character.
     map(
       alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
+        map_res(take(1usize), single_char),
+        map_res(take(2usize), single_char),
+        map_res(take(3usize), single_char),
+        map_res(take(4usize), single_char),
       )),
       Self,
     )
-- 
2.43.0


From 46eba7c9985eb5b9bb68653358a138c361956c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 12/17] fix: reject a BinaryArray of rank 0

---
 src/record/binary_array.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..36529aa 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -6,7 +6,7 @@ use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
   enumeration::{BinaryArrayType, BinaryType},
-  error::Error,
+  error::{Error, error_position},
   record::RecordType,
 };
 
@@ -27,8 +27,13 @@ impl<'i> BinaryArray<'i> {
 
     let (input, object_id) = object_id(input)?;
     let (input, binary_array_type_enum) = BinaryArrayType::parse(input)?;
+    let err_input = input;
     let (input, rank) = length(input)?;
 
+    if rank == 0 {
+      return Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
+    }
+
     let (input, lengths) = count(length, rank).parse(input)?;
     let (input, lower_bounds) = cond(
       matches!(
-- 
2.43.0


From 9a94ad587d9c53793089649a1cb3a92bd8713488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 13/17] fix: do not read an untyped primitive as a
 BinaryLibrary record

A member or array element declared as a primitive whose first byte is 12, for example
the Int64 12, was taken for the start of a library record and the message was rejected.
---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 0eb5899..5947922 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -110,7 +110,11 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    // An untyped primitive is not a record, its first byte can be the same as that of a `BinaryLibrary`.
+    let (input, ()) = match type_enum_and_additional_type_info {
+      Some((BinaryType::Primitive, _)) => (input, ()),
+      _ => self.parse_binary_library(input)?,
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From cbffc21fb3d10409d93ec6f445cb9d267655620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 14/17] fix: read the return value of a MethodReturn from its
 call array

With RETURN_VALUE_IN_ARRAY the value was dropped.
---
 src/binary_parser/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 5947922..90c30cd 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -600,7 +600,22 @@ impl<'i> BinaryParser<'i> {
 
     let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
 
-    let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+    let (input, mut call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+
+    let message_enum = binary_method_return.message_enum;
+    let mut return_value = binary_method_return.return_value.map(|v| v.into_value());
+
+    if message_enum.intersects(MessageFlags::RETURN_VALUE_IN_ARRAY)
+      && !message_enum.intersects(MessageFlags::ARGS_IS_ARRAY)
+    {
+      // The return value is the item following the arguments.
+      let i = usize::from(message_enum.intersects(MessageFlags::ARGS_IN_ARRAY));
+
+      match call_array.as_mut() {
+        Some(call_array) if i < call_array.len() => return_value = Some(call_array.remove(i)),
+        _ => return Err(nom::Err::Failure(error_position!(input, InvalidArgs))),
+      }
+    }
 
     let parse_args = |message_enum: MessageFlags| {
       if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
@@ -622,10 +637,10 @@ impl<'i> BinaryParser<'i> {
       Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
     };
 
-    let args = parse_args(binary_method_return.message_enum)?;
+    let args = parse_args(message_enum)?;
 
     let method_return = MethodReturn {
-      return_value: binary_method_return.return_value.map(|v| v.into_value()),
+      return_value,
       call_context: binary_method_return.call_context.map(|c| c.as_str()),
       args,
     };
-- 
2.43.0


From a559d8ef6b17cd3608f80471e0e3ebb1804c414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 15/17] fix: splitting a multi-dimensional array into rows took
 quadratic time

---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 90c30cd..edb64df 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -456,9 +456,10 @@ impl<'i> BinaryParser<'i> {
     let mut members = members;
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
+      let mut remaining = members.into_iter().peekable();
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      while remaining.peek().is_some() {
+        members2.push(Value::Array(remaining.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From 0c3dabcb87ff143ff68a46562c3bfaebc1d3cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 16/17] fix: do not take a record that is parsed again for a
 duplicate

---
 src/binary_parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index edb64df..4ae5c11 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-  collections::{BTreeMap, BTreeSet, HashMap},
+  collections::{BTreeMap, HashMap},
   num::NonZeroU32,
 };
 
@@ -56,7 +56,7 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
-  object_ids: BTreeSet<NonZeroU32>,
+  object_ids: BTreeMap<NonZeroU32, usize>,
 }
 
 macro_rules! alt_mut {
@@ -97,7 +97,8 @@ impl<'i> BinaryParser<'i> {
 
   /// Every class, array and string record needs an ID of its own.
   fn register_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
-    if !self.object_ids.insert(object_id) {
+    // The same record is parsed again when an alternative containing it did not match, which is not a duplicate.
+    if self.object_ids.insert(object_id, input.len()).is_some_and(|remaining| remaining != input.len()) {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
-- 
2.43.0


From 6bd1bfa3b2f2fc2869dda98fe57beb31b960926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 17/17] fix: accept an empty rectangular array whatever its
 other lengths are

---
 src/binary_parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 4ae5c11..90b1ef6 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -426,6 +426,8 @@ impl<'i> BinaryParser<'i> {
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
+      // No matter how long the other dimensions are.
+      None if binary_array.lengths.contains(&0) => 0,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
     let mut members = vec![];
-- 
2.43.0

