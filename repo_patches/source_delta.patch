From 9ae4dcf5c8e44af717fcd0ee482c2eda4559cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 01/24] fix: describe recursive tuple structs and enums without
 unbounded recursion

The field and variant nodes were built before the type itself was registered
in the graph, so a tuple struct or enum that mentions itself (through a Box,
Option, Vec, ...) overflowed the stack in DescribeType::build.
---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..0a680da 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -112,8 +112,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..a9e5bf2 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 157277ce0f5aa682a40d6a413e5489c86a05665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 02/24] fix: index fields of tuple structs and enum variants
 consistently when some are skipped

Values, type descriptors and field counts number only the reflected fields,
but field_at, field_at_mut, name_at, patch and from_reflect used the position
in the source, so every field after a skipped one was unreachable and
from_reflect(to_value(x)) failed.
---
 .../src/derive_reflect/enum_.rs               | 22 +++++++++++-------
 .../src/derive_reflect/tuple_struct.rs        | 23 +++++++++++++------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 0a680da..4869c17 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -406,7 +406,13 @@ fn expand_from_reflect(
                 }
             }
             FieldsData::Unnamed(fields) => {
-                let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                // skipped fields aren't visible through reflection and thus don't take up an index
+                let mut next_reflect_index = 0_usize;
+                let set_fields = fields.iter().map(|field| {
+                    let idx = next_reflect_index;
+                    if !field.skip() {
+                        next_reflect_index += 1;
+                    }
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
@@ -630,7 +636,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +655,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +700,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +719,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +876,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +895,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index a9e5bf2..39356f5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,6 +91,7 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
+            .enumerate()
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
@@ -195,7 +196,13 @@ fn expand_from_reflect(
     generics: &Generics<'_>,
 ) -> TokenStream {
     let fn_from_reflect = {
+        // skipped fields aren't visible through reflection and thus don't take up an index
+        let mut next_reflect_index = 0_usize;
         let code_for_fields = fields.iter().enumerate().map(|(idx, field)| {
+            let reflect_index = next_reflect_index;
+            if !field_attrs.skip(&idx) {
+                next_reflect_index += 1;
+            }
             let field_index = Index {
                 index: idx as u32,
                 span: field.span(),
@@ -209,21 +216,21 @@ fn expand_from_reflect(
             } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_index)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +276,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #reflect_idx => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +302,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflect_idx => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From 834bb02340afebc8c594f3e7b33fd9723ca4d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 03/24] fix: let arrays be patched and built from reflected
 arrays as well as lists

An array's to_value is a list, but patch only accepted arrays, so patching an
array from its value did nothing; from_reflect only accepted lists, so an
array could not be built from itself (pushing onto a Vec of arrays or
rebuilding a struct with an array field silently failed).
---
 .../mirror-mirror/src/foreign_impls/array.rs  | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..28a5e41 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -44,11 +44,15 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
-                if let Some(value) = self.get_mut(idx) {
-                    value.patch(new_value);
-                }
+        // `to_value` turns arrays into lists, so both have to be accepted
+        let values = match value.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            ReflectRef::List(list) => list.iter(),
+            _ => return,
+        };
+        for (idx, new_value) in values.enumerate() {
+            if let Some(value) = self.get_mut(idx) {
+                value.patch(new_value);
             }
         }
     }
@@ -108,7 +112,14 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        // `to_value` turns arrays into lists, so both have to be accepted
+        let values = match reflect.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            ReflectRef::List(list) => list.iter(),
+            _ => return None,
+        };
+        let values = values.map(T::from_reflect).collect::<Option<Vec<_>>>()?;
+        values.try_into().ok()
     }
 }
 
-- 
2.43.0


From 6ac74f40ee47f61c9dc51e19506c4d66b9ab508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 04/24] fix: don't truncate integer keys when indexing lists
 and arrays

Keys were cast with `as usize`, so a key such as 2^64 (u128) or -2^64 (i128)
aliased a valid index. Out of range keys now resolve to nothing.
---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..2967178 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => (*n).try_into().ok(),
+        Value::u64(n) => (*n).try_into().ok(),
+        Value::u128(n) => (*n).try_into().ok(),
+        Value::i8(n) => (*n).try_into().ok(),
+        Value::i16(n) => (*n).try_into().ok(),
+        Value::i32(n) => (*n).try_into().ok(),
+        Value::i64(n) => (*n).try_into().ok(),
+        Value::i128(n) => (*n).try_into().ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From 3dd680f9753ba3aab200777f4f1e52e8af1d06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 05/24] fix: report the remaining length from field and array
 iterators

ExactSizeIterator::len returned the total number of items however many had
already been taken, and size_hint disagreed with it.
---
 crates/mirror-mirror/src/array.rs        | 9 +++++----
 crates/mirror-mirror/src/struct_.rs      | 9 +++++----
 crates/mirror-mirror/src/tuple.rs        | 9 +++++----
 crates/mirror-mirror/src/tuple_struct.rs | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..4397269 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,12 +45,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.array.len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.array.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..f3ba7c5 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -219,12 +219,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.struct_.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.struct_.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..f485fc4 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,12 +339,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..2e8f9f8 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,12 +190,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple_struct.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
-- 
2.43.0


From 105fe5aadc2230b436d01631707d595fefbc0cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 06/24] fix: keep struct values' field names unique when a
 field is set twice

Setting an existing field pushed its name again, so fields_len, field_at and
fields() reported the field twice.
---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index f3ba7c5..4a1e57e 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From 535e8dcff943765f8c69ba54673ac067b865188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 07/24] fix: iterate a struct value's fields mutably in the
 same order as immutably

fields() goes in insertion order, fields_mut() went in alphabetical order.
---
 crates/mirror-mirror/src/struct_.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 4a1e57e..49b8642 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,12 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
-        let iter = self
-            .fields
-            .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+        // same order as `fields`
+        let mut fields = self.fields.iter_mut().collect::<BTreeMap<_, _>>();
+        let iter = self.field_names.iter().filter_map(move |name| {
+            let value = fields.remove(name)?;
+            Some((&**name, value.as_reflect_mut()))
+        });
         Box::new(iter)
     }
 
-- 
2.43.0


From e173bc389067c50338b68d26f61054ed8b2b46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 08/24] fix: downcast struct and enum values out of a Value

Value boxes StructValue and EnumValue, and as_any exposed the box, so unlike
every other variant they could not be downcast.
---
 crates/mirror-mirror/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/value.rs b/crates/mirror-mirror/src/value.rs
index 34808da..e9155b6 100644
--- a/crates/mirror-mirror/src/value.rs
+++ b/crates/mirror-mirror/src/value.rs
@@ -195,11 +195,11 @@ impl Reflect for Value {
     }
 
     fn as_any(&self) -> &dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any())
     }
 
     fn as_any_mut(&mut self) -> &mut dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any_mut())
     }
 
     fn as_reflect(&self) -> &dyn Reflect {
-- 
2.43.0


From 8a1e4308152ad802e4938660c698ebde07d1f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 09/24] fix: don't panic when a Duration is built from a
 negative, NaN or too large float

from_reflect returns None for values that aren't valid for the target type.
---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..0fb2ac0 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,14 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs_f32 }
+
+// `Duration::try_from_secs_f32` requires a newer rust version
+fn duration_from_secs_f32(secs: f32) -> Option<Duration> {
+    // false for NaN
+    let in_range = secs >= 0.0 && secs < 18_446_744_073_709_551_616.0;
+    in_range.then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 1949ad9d6876ad04f8d12741deff5b83def3f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 10/24] fix: clone containers and opt_out(Clone) types from the
 original, not from its value

clone_reflect went through to_value, which loses precision for (and can panic
on) types whose value representation is lossy, such as Duration.
---
 crates/mirror-mirror-macros/src/derive_reflect/attrs.rs | 3 +--
 crates/mirror-mirror/src/foreign_impls/array.rs         | 3 +--
 crates/mirror-mirror/src/foreign_impls/btree_map.rs     | 3 +--
 crates/mirror-mirror/src/foreign_impls/vec.rs           | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 143adcf..fdc64e9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -150,8 +150,7 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    let value = self.to_value();
-                    Box::new(Self::from_reflect(&value).unwrap())
+                    Box::new(Self::from_reflect(self).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 28a5e41..fe1e4a2 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -63,8 +63,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/btree_map.rs b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
index 3afed9a..ed2b633 100644
--- a/crates/mirror-mirror/src/foreign_impls/btree_map.rs
+++ b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
@@ -117,8 +117,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 2675b45..3afbd12 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -107,8 +107,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-- 
2.43.0


From bb258d4de5ee0e993a3e7bef0b922a88b8d1b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:43 +0000
Subject: [PATCH 11/24] fix: empty arrays always have a default value

ArrayType::has_default_value disagreed with default_value for arrays of length
zero whose element type has no default value.
---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..c7593c8 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1269,7 +1269,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From ad317448294f5aaa1313ddc0236f3a711f9d955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 12/24] fix: expose the meta data and docs of a variant found
 by key path

TypeAtPath::meta and docs returned nothing for variants, although Variant
itself has them.
---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c7593c8..0d48b63 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1400,8 +1400,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.meta(key),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1414,8 +1414,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From 1de0ffa18e0e976815eb090e24b886f70ed839d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 13/24] fix: don't let an enum's field names capture variables
 of the derived code

A variant field called `name` shadowed the argument of the derived Enum::field
and field_mut, which then returned the wrong field; fields called `index`,
`value`, `enum_`, `new_value` or `variant_matches` failed to compile.
---
 .../src/derive_reflect/enum_.rs               | 58 +++++++++----------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 4869c17..a81702f 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -138,15 +138,15 @@ fn expand_reflect(
                         let ident = field.ident;
                         let ident_string = stringify(ident);
                         quote! {
-                            if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                            if let Some(__new_value) = __enum.field(#ident_string) {
+                                #ident.patch(__new_value);
                             }
                         }
                     });
 
                     quote! {
                         Self::#variant_ident { #(#field_names,)* } => {
-                            if variant_matches {
+                            if __variant_matches {
                                 #(#set_fields)*
                             }
                         }
@@ -157,8 +157,8 @@ fn expand_reflect(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
-                                if let Some(new_value) = enum_.field_at(#index) {
-                                    #ident.patch(new_value);
+                                if let Some(__new_value) = __enum.field_at(#index) {
+                                    #ident.patch(__new_value);
                                 }
                             }
                         },
@@ -166,7 +166,7 @@ fn expand_reflect(
 
                     quote! {
                         Self::#variant_ident(#(#field_names,)*) => {
-                            if variant_matches {
+                            if __variant_matches {
                                 #(#set_fields)*
                             }
                         }
@@ -185,11 +185,11 @@ fn expand_reflect(
         if attrs.clone_opt_out {
             quote! {
                 fn patch(&mut self, value: &dyn Reflect) {
-                    if let Some(enum_) = value.reflect_ref().as_enum() {
+                    if let Some(__enum) = value.reflect_ref().as_enum() {
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let __variant_matches = self.variant_name() == __enum.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -203,11 +203,11 @@ fn expand_reflect(
                 fn patch(&mut self, value: &dyn Reflect) {
                     if let Some(new) = value.downcast_ref::<Self>() {
                         *self = new.clone();
-                    } else if let Some(enum_) = value.reflect_ref().as_enum() {
+                    } else if let Some(__enum) = value.reflect_ref().as_enum() {
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let __variant_matches = self.variant_name() == __enum.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -231,7 +231,7 @@ fn expand_reflect(
                         let ident = &field.ident;
                         let ident_string = stringify(ident);
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            __value.set_struct_field(#ident_string, #ident.to_value());
                         }
                     });
 
@@ -239,9 +239,9 @@ fn expand_reflect(
 
                     quote! {
                         Self::#variant_ident { #(#field_names,)* } => {
-                            let mut value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
+                            let mut __value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(#set_fields)*
-                            value.finish().into()
+                            __value.finish().into()
                         }
                     }
                 }
@@ -257,11 +257,11 @@ fn expand_reflect(
 
                     quote! {
                         Self::#variant_ident(#(#field_names,)*) => {
-                            let mut value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
+                            let mut __value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(
-                                value.push_tuple_field(#included_fields.to_value());
+                                __value.push_tuple_field(#included_fields.to_value());
                             )*
-                            value.finish().into()
+                            __value.finish().into()
                         }
                     }
                 }
@@ -544,7 +544,7 @@ fn expand_enum(
                             let ident = &field.ident;
                             let ident_string = stringify(ident);
                             quote! {
-                                if name == #ident_string {
+                                if __name == #ident_string {
                                     return Some(#ident);
                                 }
                             }
@@ -567,7 +567,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field(&self, name: &str) -> Option<&dyn Reflect> {
+            fn field(&self, __name: &str) -> Option<&dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -592,7 +592,7 @@ fn expand_enum(
                             let ident = &field.ident;
                             let ident_string = stringify(ident);
                             quote! {
-                                if name == #ident_string {
+                                if __name == #ident_string {
                                     return Some(#ident);
                                 }
                             }
@@ -615,7 +615,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_mut(&mut self, name: &str) -> Option<&mut dyn Reflect> {
+            fn field_mut(&mut self, __name: &str) -> Option<&mut dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -640,7 +640,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(#field_name.as_reflect());
                                         }
                                     }
@@ -659,7 +659,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(#field_name.as_reflect());
                                         }
                                     }
@@ -680,7 +680,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_at(&self, index: usize) -> Option<&dyn Reflect> {
+            fn field_at(&self, __index: usize) -> Option<&dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -704,7 +704,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(#field_name.as_reflect_mut());
                                         }
                                     }
@@ -723,7 +723,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(#field_name.as_reflect_mut());
                                         }
                                     }
@@ -744,7 +744,7 @@ fn expand_enum(
 
         quote! {
             #[allow(unused_variables, unreachable_code)]
-            fn field_at_mut(&mut self, index: usize) -> Option<&mut dyn Reflect> {
+            fn field_at_mut(&mut self, __index: usize) -> Option<&mut dyn Reflect> {
                 match self {
                     #(#match_arms)*
                     _ => {}
@@ -880,7 +880,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(::core::stringify!(#field_name));
                                         }
                                     }
@@ -899,7 +899,7 @@ fn expand_enum(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
-                                        if #idx == index {
+                                        if #idx == __index {
                                             return Some(::core::stringify!(#field_name));
                                         }
                                     }
@@ -918,7 +918,7 @@ fn expand_enum(
                 }
             });
         quote! {
-            fn name_at(&self, index: usize) -> Option<&str> {
+            fn name_at(&self, __index: usize) -> Option<&str> {
                 match self {
                     #(#match_arms)*
                     _ => {}
-- 
2.43.0


From 6755093beb580495f96ce3db6b96ee30a86c1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 14/24] fix: support from_reflect_with on any field of a tuple
 struct

The derived code lacked a comma, so it only compiled on the last field.
---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 39356f5..b46299c 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -218,7 +218,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflect_index)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From 4968b76131d5c589d3942e91f0235ee3c95b15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 15/24] fix: fields of derived enums' tuple variants don't have
 names

Enum::name_at made up names such as "field_0" for them, unlike EnumValue,
which reports None.
---
 .../src/derive_reflect/enum_.rs               | 75 ++++++++-----------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index a81702f..963253f 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -868,55 +868,40 @@ fn expand_enum(
     };
 
     let fn_name_at = {
-        let match_arms =
-            variants.iter().filter(filter_out_skipped).map(|variant| {
-                let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
-
-                match &variant.fields {
-                    FieldsData::Named(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.ident;
-                                    quote! {
-                                        if #idx == __index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
+        let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
+            let variant_ident = &variant.ident;
+            let field_names = variant.field_names();
 
-                        quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
-                    }
-                    FieldsData::Unnamed(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.fake_ident;
-                                    quote! {
-                                        if #idx == __index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
+            match &variant.fields {
+                FieldsData::Named(fields) => {
+                    let return_if_index_matches = fields
+                        .iter()
+                        .filter(filter_out_skipped)
+                        .enumerate()
+                        .map(|(idx, field)| {
+                            let field_name = &field.ident;
+                            quote! {
+                                if #idx == __index {
+                                    return Some(::core::stringify!(#field_name));
+                                }
+                            }
+                        });
 
-                        quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
+                    quote! {
+                        Self::#variant_ident { #(#field_names,)* } => {
+                            #(#return_if_index_matches)*
+                        },
                     }
-                    FieldsData::Unit => quote! {
-                        Self::#variant_ident => {},
-                    },
                 }
-            });
+                // fields of tuple variants don't have names
+                FieldsData::Unnamed(_) => quote! {
+                    Self::#variant_ident(..) => {},
+                },
+                FieldsData::Unit => quote! {
+                    Self::#variant_ident => {},
+                },
+            }
+        });
         quote! {
             fn name_at(&self, __index: usize) -> Option<&str> {
                 match self {
-- 
2.43.0


From 2857926215b78377263d97b1c3950eb3e5b20d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:30 +0000
Subject: [PATCH 16/24] fix: don't hold the type descriptor cache's lock while
 building a descriptor

Building evaluates the user's meta data expressions. One that asked for another
type's descriptor deadlocked, and one that panicked poisoned the cache so that
no descriptor could be obtained for the rest of the process.
---
 crates/mirror-mirror/src/type_info/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 0d48b63..0582f4b 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -38,8 +38,8 @@ pub use self::simple_type_name::SimpleTypeName;
 pub trait DescribeType: 'static {
     /// Creates a type descriptor for the current type.
     ///
-    /// On targets with the standard library, it's done only once per process, then subsequent
-    /// accesses are "free" because the result is cached. On non-std targets, the type descriptor
+    /// On targets with the standard library, the first result is cached for the rest of the
+    /// process, so subsequent accesses are "free". On non-std targets, the type descriptor
     /// is recomputed and reallocated on each call.
     fn type_descriptor() -> Cow<'static, TypeDescriptor> {
         #[cfg(feature = "std")]
@@ -65,10 +65,13 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // `build` runs user code (meta data expressions), which might itself ask for a type
+            // descriptor or panic, so it must not be called while holding the lock
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+
             let mut map = lock.write().unwrap();
             let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
                 let info = TypeDescriptor::new(id, graph);
                 Box::leak(Box::new(info))
             });
-- 
2.43.0


From 32a87a07367d1e548aa04cd168f96337483f62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:25 +0000
Subject: [PATCH 17/24] fix: keep the leading underscore of names in simplified
 type names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..ada9314 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,13 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        // only drop whole `_` segments, not the start of names such as `_Foo`
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From f24e405443ea6262795a3de9343e59e48b14f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 18/24] fix: print the raw type name where a name has no
 simplified form

---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..2eb8f46 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -51,10 +51,11 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+    // names that parse but have no simplified form are written as they are
+    let mut simplified = String::new();
+    match super::SimpleTypeName::new(type_name).map(|name| write!(simplified, "{name}")) {
+        Some(Ok(())) => f.write_str(&simplified),
+        Some(Err(_)) | None => f.write_str(type_name),
     }
 }
 
-- 
2.43.0


From 0d88dde1c9661f32d700337157deb8c6e5beb85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 19/24] fix: simplify names of types declared in trait impls
 and closures, and with char parameters

---
 .../src/type_info/simple_type_name.rs         | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index ada9314..30841e3 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -5,7 +5,7 @@ use core::{any::type_name, fmt};
 use alloc::borrow::Cow;
 use syn::{
     token::Mut, AngleBracketedGenericArguments, Expr, ExprLit, GenericArgument, Ident, Lit,
-    LitBool, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray, TypePath,
+    LitBool, LitChar, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray, TypePath,
     TypeReference, TypeTuple,
 };
 
@@ -80,10 +80,14 @@ impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
         // only drop whole `_` segments, not the start of names such as `_Foo`
         const UNNAMED_CONST_PATH: &str = "::_::";
+        // types can also be declared inside closures and async blocks
+        const CLOSURE_PATH: &str = "::{{closure}}::";
 
         let mut type_name = Cow::Borrowed(type_name);
-        while type_name.contains(UNNAMED_CONST_PATH) {
-            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        for path in [UNNAMED_CONST_PATH, CLOSURE_PATH] {
+            while type_name.contains(path) {
+                type_name = Cow::Owned(type_name.replace(path, "::"));
+            }
         }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
@@ -213,9 +217,8 @@ impl<'a, 'b> WriteAst<Lit> for TypeWriter<'a, 'b> {
             Lit::Int(inner) => self.write(inner),
             Lit::Bool(inner) => self.write(inner),
             Lit::Float(inner) => self.write(inner),
-            Lit::Str(_) | Lit::ByteStr(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Verbatim(_) | _ => {
-                Err(fmt::Error)
-            }
+            Lit::Char(inner) => self.write(inner),
+            Lit::Str(_) | Lit::ByteStr(_) | Lit::Byte(_) | Lit::Verbatim(_) | _ => Err(fmt::Error),
         }
     }
 }
@@ -232,6 +235,12 @@ impl<'a, 'b> WriteAst<LitFloat> for TypeWriter<'a, 'b> {
     }
 }
 
+impl<'a, 'b> WriteAst<LitChar> for TypeWriter<'a, 'b> {
+    fn write(&mut self, lit: &LitChar) -> fmt::Result {
+        write!(self.f, "{:?}", lit.value())
+    }
+}
+
 impl<'a, 'b> WriteAst<LitBool> for TypeWriter<'a, 'b> {
     fn write(&mut self, lit: &LitBool) -> fmt::Result {
         write!(self.f, "{}", lit.value)
@@ -240,10 +249,8 @@ impl<'a, 'b> WriteAst<LitBool> for TypeWriter<'a, 'b> {
 
 impl<'a, 'b> WriteAst<TypePath> for TypeWriter<'a, 'b> {
     fn write(&mut self, ty: &TypePath) -> fmt::Result {
-        let TypePath { qself, path } = ty;
-        if qself.is_some() {
-            return Err(fmt::Error);
-        }
+        // types declared in the methods of a trait impl are named `<T as Trait>::method::Foo`
+        let TypePath { qself: _, path } = ty;
         self.write(path)?;
         Ok(())
     }
-- 
2.43.0


From 28288d37eaa5c27f16d2f20d572735716545fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 20/24] fix: key path iterators give the size hint their exact
 length promises

---
 crates/mirror-mirror/src/key_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 2967178..b5726a0 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
-- 
2.43.0


From 3f220c0ca0f0756ead8fd11f346320ad42e52eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 21/24] fix: leave the lifetimes newer compilers write out of
 simplified type names

---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 30841e3..0d907b8 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -302,8 +302,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // newer compilers write erased lifetimes as `'_`
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0


From 79a075bd8b13f140f18efa355433391a34b248d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 22/24] fix: boxed values have the type and print as what they
 contain

---
 crates/mirror-mirror/src/foreign_impls/boxed.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/boxed.rs b/crates/mirror-mirror/src/foreign_impls/boxed.rs
index 5387ffd..6c75486 100644
--- a/crates/mirror-mirror/src/foreign_impls/boxed.rs
+++ b/crates/mirror-mirror/src/foreign_impls/boxed.rs
@@ -1,9 +1,9 @@
 use alloc::borrow::Cow;
 use alloc::boxed::Box;
 use core::any::Any;
+use core::any::TypeId;
 use core::fmt;
 
-use crate::reflect_debug;
 use crate::type_info::graph::NodeId;
 use crate::type_info::graph::TypeGraph;
 use crate::DescribeType;
@@ -73,7 +73,15 @@ where
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        reflect_debug(self, f)
+        <T as Reflect>::debug(self, f)
+    }
+
+    fn type_id(&self) -> TypeId {
+        <T as Reflect>::type_id(self)
+    }
+
+    fn type_name(&self) -> &str {
+        <T as Reflect>::type_name(self)
     }
 }
 
-- 
2.43.0


From 84b870db59c2c555832dde22e587c26cac931bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 23/24] fix: find enum fields by String keys, as struct fields
 are

---
 crates/mirror-mirror/src/get_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/get_field.rs b/crates/mirror-mirror/src/get_field.rs
index 2fb8276..e3e1285 100644
--- a/crates/mirror-mirror/src/get_field.rs
+++ b/crates/mirror-mirror/src/get_field.rs
@@ -99,9 +99,9 @@ where
             match self.reflect_ref() {
                 ReflectRef::Map(inner) => inner.get_field(key.to_owned()),
                 ReflectRef::Struct(inner) => inner.get_field(key),
+                ReflectRef::Enum(inner) => inner.get_field(key.as_str()),
                 ReflectRef::TupleStruct(_)
                 | ReflectRef::Tuple(_)
-                | ReflectRef::Enum(_)
                 | ReflectRef::List(_)
                 | ReflectRef::Array(_)
                 | ReflectRef::Opaque(_)
@@ -145,9 +145,9 @@ where
             match self.reflect_mut() {
                 ReflectMut::Map(inner) => inner.get_field_mut(key.to_owned()),
                 ReflectMut::Struct(inner) => inner.get_field_mut(key),
+                ReflectMut::Enum(inner) => inner.get_field_mut(key.as_str()),
                 ReflectMut::TupleStruct(_)
                 | ReflectMut::Tuple(_)
-                | ReflectMut::Enum(_)
                 | ReflectMut::List(_)
                 | ReflectMut::Array(_)
                 | ReflectMut::Opaque(_)
-- 
2.43.0


From cbda6dd8220fbe5b57cbf86701f61b6c009278b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 24/24] fix: call trait methods by path in derived code, so
 inherent methods don't shadow them

---
 .../src/derive_reflect/attrs.rs               |  2 +-
 .../src/derive_reflect/enum_.rs               | 26 +++++++++----------
 .../src/derive_reflect/mod.rs                 |  2 +-
 .../src/derive_reflect/struct_named.rs        |  6 ++---
 .../src/derive_reflect/tuple_struct.rs        | 10 +++----
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index fdc64e9..cf4fcb9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -150,7 +150,7 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    Box::new(Self::from_reflect(self).unwrap())
+                    Box::new(<Self as FromReflect>::from_reflect(self).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 963253f..10aed09 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -139,7 +139,7 @@ fn expand_reflect(
                         let ident_string = stringify(ident);
                         quote! {
                             if let Some(__new_value) = __enum.field(#ident_string) {
-                                #ident.patch(__new_value);
+                                Reflect::patch(#ident, __new_value);
                             }
                         }
                     });
@@ -158,7 +158,7 @@ fn expand_reflect(
                             let ident = &field.fake_ident;
                             quote! {
                                 if let Some(__new_value) = __enum.field_at(#index) {
-                                    #ident.patch(__new_value);
+                                    Reflect::patch(#ident, __new_value);
                                 }
                             }
                         },
@@ -189,7 +189,7 @@ fn expand_reflect(
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let __variant_matches = self.variant_name() == __enum.variant_name();
+                            let __variant_matches = Enum::variant_name(self) == __enum.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -207,7 +207,7 @@ fn expand_reflect(
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let __variant_matches = self.variant_name() == __enum.variant_name();
+                            let __variant_matches = Enum::variant_name(self) == __enum.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -231,7 +231,7 @@ fn expand_reflect(
                         let ident = &field.ident;
                         let ident_string = stringify(ident);
                         quote! {
-                            __value.set_struct_field(#ident_string, #ident.to_value());
+                            __value.set_struct_field(#ident_string, Reflect::to_value(#ident));
                         }
                     });
 
@@ -259,7 +259,7 @@ fn expand_reflect(
                         Self::#variant_ident(#(#field_names,)*) => {
                             let mut __value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(
-                                __value.push_tuple_field(#included_fields.to_value());
+                                __value.push_tuple_field(Reflect::to_value(#included_fields));
                             )*
                             __value.finish().into()
                         }
@@ -279,7 +279,7 @@ fn expand_reflect(
         let catch_all_branch = has_skipped_variant.then(|| {
             quote! {
                 other => {
-                    panic!("`Reflection::to_value` called on `{:?}` which doesn't suport reflection", other.as_reflect())
+                    panic!("`Reflection::to_value` called on `{:?}` which doesn't suport reflection", Reflect::as_reflect(other))
                 }
             }
         });
@@ -641,7 +641,7 @@ fn expand_enum(
                                     let field_name = &field.ident;
                                     quote! {
                                         if #idx == __index {
-                                            return Some(#field_name.as_reflect());
+                                            return Some(Reflect::as_reflect(#field_name));
                                         }
                                     }
                                 },
@@ -660,7 +660,7 @@ fn expand_enum(
                                     let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == __index {
-                                            return Some(#field_name.as_reflect());
+                                            return Some(Reflect::as_reflect(#field_name));
                                         }
                                     }
                                 },
@@ -705,7 +705,7 @@ fn expand_enum(
                                     let field_name = &field.ident;
                                     quote! {
                                         if #idx == __index {
-                                            return Some(#field_name.as_reflect_mut());
+                                            return Some(Reflect::as_reflect_mut(#field_name));
                                         }
                                     }
                                 },
@@ -724,7 +724,7 @@ fn expand_enum(
                                     let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == __index {
-                                            return Some(#field_name.as_reflect_mut());
+                                            return Some(Reflect::as_reflect_mut(#field_name));
                                         }
                                     }
                                 },
@@ -776,7 +776,7 @@ fn expand_enum(
                         let ident = &field.ident;
                         let field = stringify(ident);
                         quote! {
-                            (#field, #ident.as_reflect_mut()),
+                            (#field, Reflect::as_reflect_mut(#ident)),
                         }
                     });
 
@@ -795,7 +795,7 @@ fn expand_enum(
 
                     quote! {
                         Self::#variant_ident(#(#field_names,)*) => {
-                            let iter = [#(#included_fields.as_reflect_mut(),)*];
+                            let iter = [#(Reflect::as_reflect_mut(#included_fields),)*];
                             VariantFieldIterMut::new_tuple_variant(iter)
                         },
                     }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
index 3ab3942..75a0c40 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
@@ -83,7 +83,7 @@ pub(crate) fn expand(item: DeriveInput) -> syn::Result<TokenStream> {
 
             impl #impl_generics From<#ident #type_generics> for Value #where_clause {
                 fn from(data: #ident #type_generics) -> Value {
-                    data.to_value()
+                    Reflect::to_value(&data)
                 }
             }
         };
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
index 7a801f1..71f59e9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
@@ -95,7 +95,7 @@ fn expand_reflect(
                 let field = stringify(&field.ident);
                 quote! {
                     if let Some(field) = value.field(#field) {
-                        self.field_mut(#field).unwrap().patch(field);
+                        Struct::field_mut(self, #field).unwrap().patch(field);
                     }
                 }
             });
@@ -117,7 +117,7 @@ fn expand_reflect(
                 let ident = &field.ident;
                 let field = stringify(ident);
                 quote! {
-                    let value = value.with_field(#field, self.#ident.to_value());
+                    let value = value.with_field(#field, Reflect::to_value(&self.#ident));
                 }
             });
 
@@ -393,7 +393,7 @@ fn expand_struct(
                 let ident = &field.ident;
                 let field = stringify(ident);
                 quote! {
-                    (#field, self.#ident.as_reflect_mut()),
+                    (#field, Reflect::as_reflect_mut(&mut self.#ident)),
                 }
             });
 
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index b46299c..02bc50e 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -95,7 +95,7 @@ fn expand_reflect(
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
-                        self.field_at_mut(#idx).unwrap().patch(new_value);
+                        TupleStruct::field_at_mut(self, #idx).unwrap().patch(new_value);
                     }
                 }
             });
@@ -120,7 +120,7 @@ fn expand_reflect(
                     span: field.span(),
                 };
                 quote! {
-                    let value = value.with_field(self.#field_index.to_value());
+                    let value = value.with_field(Reflect::to_value(&self.#field_index));
                 }
             });
 
@@ -283,7 +283,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    #reflect_idx => Some(self.#field_index.as_reflect()),
+                    #reflect_idx => Some(Reflect::as_reflect(&self.#field_index)),
                 }
             });
 
@@ -309,7 +309,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    #reflect_idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflect_idx => Some(Reflect::as_reflect_mut(&mut self.#field_index)),
                 }
             });
 
@@ -344,7 +344,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    self.#field_index.as_reflect_mut(),
+                    Reflect::as_reflect_mut(&mut self.#field_index),
                 }
             });
 
-- 
2.43.0

