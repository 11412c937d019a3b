From 61b6acc451b9a090e506f6937c68f11b10de42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 01/12] fix: accept half-open numeric ranges and reject empty
 ones

A range with one excluded limit was always rejected, even when not empty, and
a range with both limits excluded and equal was accepted.
---
 src/builder/data_schema.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..adcd2a8 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3849,9 +3849,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_empty_range(&min, &max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3863,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_empty_range(&min, &max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
@@ -3893,6 +3889,19 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// Whether no value lies between the two limits.
+fn is_empty_range<T: PartialOrd>(minimum: &Minimum<T>, maximum: &Maximum<T>) -> bool {
+    match (minimum, maximum) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => {
+            matches!(min.partial_cmp(max), None | Some(Ordering::Greater))
+        }
+        (
+            Minimum::Inclusive(min) | Minimum::Exclusive(min),
+            Maximum::Inclusive(max) | Maximum::Exclusive(max),
+        ) => min.partial_cmp(max) != Some(Ordering::Less),
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From 6c271333f11a5dc702e18845caff1a4fcdbd4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 02/12] fix: reject a NaN multipleOf

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index adcd2a8..7537b7a 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3856,7 +3856,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From f9139f48f7ae7df67f13e5754f73d91db2d12c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 03/12] fix: check every data schema of a Thing

The schemas of event data responses, schema definitions and URI variables were
accepted whatever their limits.
---
 src/builder.rs            |  8 ++++++++
 src/builder/affordance.rs | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..15a451d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -872,6 +875,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        uri_variables
+            .iter()
+            .flat_map(|uri_variables| uri_variables.values())
+            .try_for_each(CheckableDataSchema::check)?;
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
@@ -922,6 +929,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     event.subscription.as_ref(),
                     event.data.as_ref(),
                     event.cancellation.as_ref(),
+                    event.data_response.as_ref(),
                 ]
             },
             |op| {
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..9436f7a 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2459,6 +2459,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
@@ -2485,6 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.partial.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
-- 
2.43.0


From b5e404adac0e61f5904c57a950fcb8aa0ea37e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 04/12] fix: check the additional responses of affordance forms

A form of an affordance could refer to a data schema that is not declared in the
schema definitions, unlike a form of the Thing.
---
 src/builder.rs            | 16 ++++++++++------
 src/builder/affordance.rs | 24 ++++++++++++++++++++----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 15a451d..6929092 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -904,6 +899,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +915,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,7 +936,12 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1688,13 +1690,14 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+fn try_build_affordance<A, F, IA, G, DS, T, H, S, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1718,6 +1721,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 9436f7a..da4158e 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -2428,9 +2428,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2442,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2455,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2470,9 +2473,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2482,6 +2486,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2497,9 +2502,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, S>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2530,6 +2536,16 @@ where
                 })
             })
             .transpose()?;
+
+        form.additional_responses
+            .iter()
+            .flat_map(|additional_response| additional_response.schema.as_ref())
+            .try_for_each(|schema| {
+                schema_definitions
+                    .contains_key(schema)
+                    .then_some(())
+                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+            })?;
     }
 
     Ok(())
-- 
2.43.0


From 301e457398b1cea394487017f3c4ac6934b781e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 05/12] fix: use the standard names of the array length limits

"minItems" and "maxItems" were read and written as "min_items" and "max_items".
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..2ccb969 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -779,6 +779,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 #[serde(bound(
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-- 
2.43.0


From ab63768096e325dc84829db559395b546474f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 06/12] fix: omit the model of a version when absent

An absent model was written as null, which is not a string.
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 2ccb969..68a5127 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From a532e747527b0fb2913a103a65e82b29abe87779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 07/12] fix: default the qop of a digest security scheme

A digest scheme without a qop was read as an unknown scheme instead of taking
the default value.
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 68a5127..df6cd5f 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1271,6 +1271,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From 6ebc12ad7abe99d529aafd86852c77959ba3cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 08/12] fix: read back an HTTP response without headers

An empty list of headers is not written, but it was required when reading.
---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..5ce8f77 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From 1016c67bfaf0b3fa1c0226fb9cb0bf9beed6b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 09/12] fix: write the fields of a property affordance once

The fields shared by the interaction affordance and the data schema (such as the
title) were written twice, so a Thing could not be read back from its own text.
---
 src/thing.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index df6cd5f..a43dcef 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use oxilangtag::LanguageTag;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{ser::Error as _, Deserialize, Deserializer, Serialize, Serializer};
 use serde_json::Value;
 use serde_with::{serde_as, skip_serializing_none, DeserializeAs, OneOrMany, Same};
 use time::OffsetDateTime;
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -415,6 +414,36 @@ pub struct PropertyAffordance<Other: ExtendableThing> {
     pub other: Other::PropertyAffordance,
 }
 
+impl<Other> Serialize for PropertyAffordance<Other>
+where
+    Other: ExtendableThing + Serialize,
+{
+    /// The interaction affordance and the data schema have some fields in common, which must be
+    /// written only once.
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        let parts = [
+            serde_json::to_value(&self.interaction),
+            serde_json::to_value(&self.data_schema),
+            serde_json::to_value(&self.other),
+        ];
+
+        let mut fields = serde_json::Map::new();
+        for part in parts {
+            if let Value::Object(part) = part.map_err(S::Error::custom)? {
+                fields.extend(part);
+            }
+        }
+        if let Some(observable) = self.observable {
+            fields.insert("observable".to_string(), observable.into());
+        }
+
+        fields.serialize(serializer)
+    }
+}
+
 impl<Other> fmt::Debug for PropertyAffordance<Other>
 where
     Other: ExtendableThing,
-- 
2.43.0


From baac46d70d37d53bfea2fde1493380dfce5811f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 10/12] fix: keep null constants and defaults of data schemas
 when reading

---
 src/thing.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index a43dcef..ba99a20 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -696,6 +696,14 @@ where
     }
 }
 
+/// Deserializes a value that is present, even if it is `null`.
+fn deserialize_some<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 /// Metadata that describes the data format used.
 #[serde_as]
 #[skip_serializing_none]
@@ -720,10 +728,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "deserialize_some")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "deserialize_some")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
-- 
2.43.0


From 50e0ddd0eae60a91fbd590ffc8acee3b7c8e2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 11/12] fix: read a custom security scheme without data back as
 one without data

---
 src/thing.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index ba99a20..87dce54 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1214,10 +1214,21 @@ pub struct UnknownSecuritySchemeSubtype {
     pub scheme: String,
 
     /// The inner data of the security scheme.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_scheme_data")]
     pub data: Value,
 }
 
+/// Deserializes the data of a custom security scheme, which is `null` when nothing is specified.
+fn deserialize_scheme_data<'de, D>(deserializer: D) -> Result<Value, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(|data| match data {
+        Value::Object(data) if data.is_empty() => Value::Null,
+        data => data,
+    })
+}
+
 /// A security scheme subtype.
 #[derive(Clone, Debug, PartialEq, Eq, Deserialize, Serialize)]
 #[serde(untagged)]
-- 
2.43.0


From 10bad79b2fd352be165ff5f2cfdb73f06f45b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 12/12] fix: write an empty list of form operations as a list,
 not as null

---
 src/thing.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 87dce54..c983fbf 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1724,7 +1724,6 @@ impl Serialize for DefaultedFormOperations {
     {
         match self {
             Self::Default => serializer.serialize_none(),
-            Self::Custom(ops) if ops.is_empty() => serializer.serialize_none(),
             Self::Custom(ops) => ops.serialize(serializer),
         }
     }
-- 
2.43.0

