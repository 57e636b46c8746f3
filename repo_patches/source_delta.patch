From 008bca6fea0bf54c3b7a6b17eb34454643b9a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:46 +0000
Subject: [PATCH 01/34] fix: check links inside inlined models in
 verify_schemas

---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From 6dceedc18b411997f94c9e80220353398e3df841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:46 +0000
Subject: [PATCH 02/34] fix: describe recursive types instead of overflowing
 the stack

---
 opg/src/models.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..4945041 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,19 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve the name, so that recursive mentions of this type end here
+                let reserved = ModelTypeDescription::Object(ModelObject::default());
+                self.schemas.insert(
+                    link.to_owned(),
+                    Model {
+                        description: None,
+                        data: ModelData::Single(ModelType {
+                            nullable: false,
+                            type_description: reserved,
+                        }),
+                    },
+                );
+
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From 232c9531071736947d681e22e09d82dababefa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:35 +0000
Subject: [PATCH 03/34] fix: allow null where Option of a named type is
 mentioned, not in the shared component

---
 opg/src/macros.rs | 16 ++++++++++++++++
 opg/src/models.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..97971f7 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -180,6 +180,17 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                cx.mention_schema::<T>(inline, &$crate::ContextParams {
+                    description: params.description.clone(),
+                    nullable: params.nullable.or(Some(true)),
+                    variants: params.variants.clone(),
+                    format: params.format.clone(),
+                    example: params.example.clone(),
+                })
+            }
         }
     };
 
@@ -196,6 +207,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
diff --git a/opg/src/models.rs b/opg/src/models.rs
index 4945041..9b5bb41 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -556,6 +556,17 @@ impl Components {
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
+
+            // The component is shared, so `null` is allowed only at the place of mention
+            if params.nullable == Some(true) {
+                return ModelReference::Inline(Model {
+                    description: params.description.clone(),
+                    data: ModelOneOf {
+                        one_of: vec![reference, null_reference()],
+                    }
+                    .into(),
+                });
+            }
         }
         reference
     }
@@ -712,7 +723,16 @@ impl ModelData {
     pub fn apply_params(self, params: &ContextParams) -> Self {
         match self {
             ModelData::Single(data) => ModelData::Single(data.apply_params(params)),
-            data => data, // TODO: apply params to oneOf, anyOf, and allOf
+            data if params.nullable == Some(true) => ModelData::OneOf(ModelOneOf {
+                one_of: vec![
+                    ModelReference::Inline(Model {
+                        description: None,
+                        data,
+                    }),
+                    null_reference(),
+                ],
+            }),
+            data => data, // TODO: apply other params to oneOf, anyOf, and allOf
         }
     }
 
@@ -727,6 +747,11 @@ impl ModelData {
     }
 }
 
+/// Inlined schema of `null`
+fn null_reference() -> ModelReference {
+    ModelReference::Inline(<() as OpgModel>::get_schema(&mut Components::default()))
+}
+
 /// oneOf
 #[derive(Debug, Clone, Default, Serialize)]
 #[serde(rename_all = "camelCase")]
-- 
2.43.0


From 1d4c30acaf7e2f1e14ab2b220e76c5bb9f5b6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:37 +0000
Subject: [PATCH 04/34] fix: describe struct variants of adjacently tagged
 enums as objects

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From d4b1ee565f5bc539a2b4d99d054f712a29eb77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:38 +0000
Subject: [PATCH 05/34] fix: honour nullable and explicit type attributes of
 newtype structs

---
 opg_derive/src/opg.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..1d796e7 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -515,10 +515,15 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let explicit_model_type = match field.attrs.explicit_model_type {
+        Some(ExplicitModelType::Any) | None => container.attrs.explicit_model_type,
+        explicit_model_type => explicit_model_type,
+    };
+
+    let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(
-                container.attrs.nullable,
+                container.attrs.nullable || field.attrs.nullable,
                 context_params,
                 explicit_model_type,
             )
@@ -874,6 +879,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From dc093dfd04daa5ec0d498e380370b8f4bf6b20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 06/34] fix: keep paths of callbacks named by a literal

---
 opg/src/macros.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 97971f7..1e5b487 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -622,15 +622,15 @@ macro_rules! describe_api {
     };
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
-    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From c39d781bad8ef191d65ad3e3a50f7104cd960f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:40 +0000
Subject: [PATCH 07/34] fix: accept variables in security_schemes of
 describe_api

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 1e5b487..bb9e7a7 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -386,7 +386,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme.clone().into());
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From e9c76ed0a1cdbf78e7c72bf623e90753380f2ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 08/34] fix: accept roles of security requirements in
 describe_api

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index bb9e7a7..d9f520e 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -601,10 +601,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 4cec879ceaf0403e2c3a7e9e990faaeb23b6b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:01 +0000
Subject: [PATCH 09/34] fix: honour inline on the field of a newtype variant

---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 1d796e7..aa836f7 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -159,7 +159,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Struct => inline_reference(object_model(
                 false,
@@ -205,7 +209,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -330,7 +338,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From b6d2d9351d7a7c68765cccfd1c8295de17e59550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 10/34] fix: merge objects completely or not at all

---
 opg/src/models.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 9b5bb41..e4b5e79 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1004,6 +1004,20 @@ impl ModelObject {
 
     /// Merge other object into self
     pub fn merge(&mut self, another: ModelObject) -> Result<(), ModelMergeError> {
+        // Nothing is merged if there is any conflict
+        if self.additional_properties.is_some() && another.additional_properties.is_some()
+            || another
+                .properties
+                .keys()
+                .any(|property| self.properties.contains_key(property))
+        {
+            return Err(ModelMergeError);
+        }
+
+        if another.additional_properties.is_some() {
+            self.additional_properties = another.additional_properties;
+        }
+
         another
             .properties
             .into_iter()
-- 
2.43.0


From 3f21609bce1483d926b1c879efa7322cd6cd1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:03 +0000
Subject: [PATCH 11/34] fix: describe one element tuples as arrays

---
 opg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..4ba08a8 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,7 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
+impl_opg_model!(generic_array: (T,));
 
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
-- 
2.43.0


From af5dc4e1bb204ad8ecaeaf1a144ac4c6f0852404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 12/34] fix: omit missing description of request body

---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index e4b5e79..b55a58d 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 6ad91eeba85bc32fc01ec4bb1fe5acf8a5db3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:06 +0000
Subject: [PATCH 13/34] fix: leave skipped fields out of tuple schemas

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index aa836f7..ec63b4b 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -607,6 +607,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From e9d2a24d2b1e5e6d8e8cbce04940ebaeada62bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:43 +0000
Subject: [PATCH 14/34] fix: describe tuple and unit variants of untagged enums

---
 opg_derive/src/opg.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ec63b4b..ffa22cf 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -171,7 +171,19 @@ fn serialize_untagged_enum(
                 &variant.fields,
                 |field| variant.attrs.inline || field.attrs.inline,
             )),
-            _ => unreachable!(),
+            StructStyle::Tuple => inline_reference(tuple_model(
+                false,
+                &variant.attrs.description,
+                &variant.fields,
+                |field| variant.attrs.inline || field.attrs.inline,
+            )),
+            StructStyle::Unit => {
+                let context_params = ContextParams::from(&variant.attrs).tokenize();
+
+                quote! {
+                    cx.mention_schema::<()>(false, &#context_params)
+                }
+            }
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From 142445bf84fc696feea6151f50aa5330cb82e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:44 +0000
Subject: [PATCH 15/34] fix: describe the tag of unit variants in internally
 and adjacently tagged enums

---
 opg_derive/src/attr.rs |  4 +++-
 opg_derive/src/opg.rs  | 37 +++++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..d2e6194 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -502,7 +502,9 @@ fn decide_model_type(
                         );
                         Err(())
                     }
-                    _ => Ok(ModelType::NewType),
+                    TagType::External => Ok(ModelType::NewType),
+                    TagType::Internal { .. } => Ok(ModelType::OneOf),
+                    TagType::Adjacent { .. } => Ok(ModelType::Object),
                 };
             }
 
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ffa22cf..8b9315b 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -239,7 +239,11 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
                     )),
-                    _ => unreachable!(),
+                    StructStyle::Unit => {
+                        // Only the tag is serialized
+                        variants.push(variant_name);
+                        return (variants, one_of);
+                    }
                 };
 
                 variants.push(variant_name);
@@ -251,6 +255,26 @@ fn serialize_adjacent_tagged_enum(
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
+    let push_content = if one_of.is_empty() {
+        quote!()
+    } else {
+        quote! {
+            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                        one_of: vec![#(#one_of),*],
+                    })
+                }
+            ));
+        }
+    };
+    let push_content_required = if !one_of.is_empty() && one_of.len() == variants.len() {
+        quote!( required.push(#content.to_owned()); )
+    } else {
+        quote!()
+    };
+
     let struct_type_description = quote! {
         {
             let mut properties = std::collections::BTreeMap::new();
@@ -273,15 +297,8 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            #push_content
+            #push_content_required
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From 6826cf7350520d1b9d93275a263deeca49d2343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:46 +0000
Subject: [PATCH 16/34] fix: describe repr enums without explicit discriminants

---
 opg_derive/src/opg.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 8b9315b..8006131 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -80,17 +80,16 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
+            .enumerate()
+            .filter(|(_, variant)| !variant.attrs.skip_serializing)
+            .map(|(index, variant)| {
+                let description = format!("{} variant", variant.attrs.name.serialized());
+                let example = match &variant.original.discriminant {
+                    Some((_, discriminant)) => {
+                        quote::ToTokens::to_token_stream(discriminant).to_string()
+                    }
+                    None => index.to_string(),
+                };
 
                 quote! {
                     _opg::Model {
-- 
2.43.0


From b81ce45cbda290885980840bb1fef23b146c295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:23 +0000
Subject: [PATCH 17/34] fix: keep the tag of internally tagged variants which
 are not plain objects

---
 opg_derive/src/opg.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 8006131..2ae8965 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -482,13 +482,25 @@ fn serialize_internal_tagged_enum(
                         })
                     };
 
-                    let _ = model.try_merge(_opg::Model {
+                    let tag_model = _opg::Model {
                         description: None,
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: #nullable,
                             type_description: additional_object
                         })
-                    });
+                    };
+
+                    if model.try_merge(tag_model.clone()).is_err() {
+                        model = _opg::Model {
+                            description: None,
+                            data: _opg::ModelData::AllOf(_opg::ModelAllOf {
+                                all_of: vec![
+                                    _opg::ModelReference::Inline(model),
+                                    _opg::ModelReference::Inline(tag_model),
+                                ],
+                            })
+                        };
+                    }
 
                     _opg::ModelReference::Inline(model)
                 }
-- 
2.43.0


From 3aafa7f6d4cf58bfe93ec5d127da41f0b2fd0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:24 +0000
Subject: [PATCH 18/34] fix: honour nullable on every enum representation

---
 opg_derive/src/opg.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 2ae8965..36e8ee2 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -141,6 +141,8 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
         }
     };
 
+    let body = nullable_model(container.attrs.nullable, body);
+
     implement_type(&container.ident, body, container.attrs.inline)
 }
 
@@ -195,6 +197,8 @@ fn serialize_untagged_enum(
         }
     };
 
+    let body = nullable_model(container.attrs.nullable, body);
+
     implement_type(&container.ident, body, container.attrs.inline)
 }
 
@@ -421,7 +425,6 @@ fn serialize_internal_tagged_enum(
     tag: &str,
 ) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
-    let nullable = container.attrs.nullable;
 
     let type_name_stringified = container.ident.to_string();
 
@@ -485,7 +488,7 @@ fn serialize_internal_tagged_enum(
                     let tag_model = _opg::Model {
                         description: None,
                         data: _opg::ModelData::Single(_opg::ModelType {
-                            nullable: #nullable,
+                            nullable: false,
                             type_description: additional_object
                         })
                     };
@@ -517,6 +520,8 @@ fn serialize_internal_tagged_enum(
         }
     };
 
+    let body = nullable_model(container.attrs.nullable, body);
+
     implement_type(&container.ident, body, container.attrs.inline)
 }
 
@@ -635,6 +640,19 @@ where
     }
 }
 
+fn nullable_model(nullable: bool, model: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    if !nullable {
+        return model;
+    }
+
+    quote! {
+        (#model).apply_params(&_opg::ContextParams {
+            nullable: Some(true),
+            ..Default::default()
+        })
+    }
+}
+
 fn inline_reference(model: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
     quote! {
         _opg::ModelReference::Inline(#model)
-- 
2.43.0


From e01215971c3f0a4a592f9283c20921fa4f65e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:26 +0000
Subject: [PATCH 19/34] fix: describe transparent structs as their only field

---
 opg_derive/src/opg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 36e8ee2..367ed07 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -50,6 +50,11 @@ fn build_generics(cont: &Container) -> syn::Generics {
 fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
+        Data::Struct(_, fields) if container.attrs.transparent => fields
+            .iter()
+            .find(|field| !field.attrs.skip_serializing)
+            .map(|field| serialize_newtype_struct(container, field))
+            .unwrap_or_default(), // serde requires exactly one field
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
         Data::Struct(StructStyle::Tuple, fields) => serialize_tuple_struct(container, fields),
         Data::Struct(StructStyle::NewType, fields) => {
-- 
2.43.0


From 755cf9a6510e9da184fde4a7adcdc9f918cdaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 20/34] fix: describe newtype variants with a skipped field as
 unit variants

---
 opg_derive/src/ast.rs | 5 +++++
 opg_derive/src/opg.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..f846a34 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -124,6 +124,11 @@ fn enum_from_ast<'a>(
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
                 let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let style = match style {
+                    // serde writes such variants the same way as unit ones
+                    StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
+                    style => style,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 367ed07..34e4c39 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -70,6 +70,9 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
         (ModelType::Object, TagType::Adjacent { tag, content }) => {
             serialize_adjacent_tagged_enum(container, variants, tag, content)
         }
+        (ModelType::Dictionary, _) if variants.iter().all(is_unit_or_skipped) => {
+            serialize_newtype_enum(container, variants)
+        }
         (ModelType::Dictionary, _) => serialize_external_tagged_enum(container, variants),
         (ModelType::OneOf, TagType::None) => serialize_untagged_enum(container, variants),
         (ModelType::OneOf, TagType::Internal { tag }) => {
@@ -79,6 +82,10 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
     }
 }
 
+fn is_unit_or_skipped(variant: &Variant) -> bool {
+    variant.attrs.skip_serializing || matches!(variant.style, StructStyle::Unit)
+}
+
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
 
-- 
2.43.0


From cca3078b3fef1a65c8e45423900c15a897b961a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 21/34] fix: apply rename_all_fields to the fields of variants

---
 opg_derive/src/ast.rs    |  7 ++++++-
 opg_derive/src/attr.rs   | 17 +++++++++++++++++
 opg_derive/src/symbol.rs |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index f846a34..d2b6b44 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -2,6 +2,7 @@ use either::*;
 use syn::punctuated::Punctuated;
 
 use crate::attr;
+use crate::case::RenameRule;
 use crate::parsing_context::*;
 
 pub struct Container<'a> {
@@ -53,11 +54,15 @@ impl<'a> Container<'a> {
             Data::Enum(variants) => {
                 for variant in variants {
                     variant.attrs.rename_by_rule(attrs.rename_rule);
+                    let field_rule = match variant.attrs.rename_rule {
+                        RenameRule::None => attrs.rename_fields_rule,
+                        rename_rule => rename_rule,
+                    };
                     for field in &mut variant.fields {
                         if field.attrs.flatten {
                             has_flatten = true;
                         }
-                        field.attrs.rename_by_rule(variant.attrs.rename_rule);
+                        field.attrs.rename_by_rule(field_rule);
                     }
                 }
             }
diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index d2e6194..08244a2 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -14,6 +14,7 @@ use crate::symbol::*;
 pub struct Container {
     pub name: Name,
     pub rename_rule: RenameRule,
+    pub rename_fields_rule: RenameRule,
     pub transparent: bool,
     pub tag_type: TagType,
     pub has_flatten: bool,
@@ -33,6 +34,7 @@ impl Container {
     pub fn from_ast(cx: &ParsingContext, input: &syn::DeriveInput) -> Self {
         let mut ser_name = Attr::none(cx, RENAME);
         let mut rename_rule = Attr::none(cx, RENAME_ALL);
+        let mut rename_fields_rule = Attr::none(cx, RENAME_ALL_FIELDS);
         let mut transparent = BoolAttr::none(cx, TRANSPARENT);
         let mut untagged = BoolAttr::none(cx, UNTAGGED);
         let mut internal_tag = Attr::none(cx, TAG);
@@ -77,6 +79,20 @@ impl Container {
                         }
                     }
                 }
+                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(rule) = get_lit_str(cx, RENAME_ALL_FIELDS, &m.lit)
+                        .and_then(|s| RenameRule::from_str(&s.value()))
+                    {
+                        rename_fields_rule.set(&m.path, rule)
+                    }
+                }
+                (AttrFrom::Serde, Meta(List(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(Some(rule)) = get_renames(cx, &m.nested) {
+                        if let Ok(rule) = RenameRule::from_str(&rule.value()) {
+                            rename_fields_rule.set(&m.path, rule)
+                        }
+                    }
+                }
                 (AttrFrom::Serde, Meta(Path(word))) if word == TRANSPARENT => {
                     transparent.set_true(word);
                 }
@@ -161,6 +177,7 @@ impl Container {
         Self {
             name: Name::from_attrs(unraw(&input.ident), ser_name),
             rename_rule: rename_rule.get().unwrap_or(RenameRule::None),
+            rename_fields_rule: rename_fields_rule.get().unwrap_or(RenameRule::None),
             transparent: transparent.get(),
             tag_type,
             has_flatten: false,
diff --git a/opg_derive/src/symbol.rs b/opg_derive/src/symbol.rs
index 118dde8..b1ae6da 100644
--- a/opg_derive/src/symbol.rs
+++ b/opg_derive/src/symbol.rs
@@ -40,6 +40,7 @@ define_symbols! {
     CONTENT => "content",
     RENAME => "rename",
     RENAME_ALL => "rename_all",
+    RENAME_ALL_FIELDS => "rename_all_fields",
     SERIALIZE => "serialize",
     DESERIALIZE => "deserialize",
 
-- 
2.43.0


From d94fb1cdd82cb78e5dfd181f1908dba8a76dc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 22/34] fix: ignore representations which do not specify the
 type of discriminants

---
 opg_derive/src/attr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 08244a2..1320483 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -164,9 +164,10 @@ impl Container {
                         format!("unknown opg variant attribute `{}`", path),
                     );
                 }
-                (AttrFrom::Repr, item) => {
-                    has_repr.set_true(item);
+                (AttrFrom::Repr, Meta(Path(word))) if is_integer_repr(word) => {
+                    has_repr.set_true(word);
                 }
+                (AttrFrom::Repr, _) => {}
             }
         }
 
@@ -485,6 +486,14 @@ pub enum TagType {
     None,
 }
 
+/// Whether the type of discriminants is specified, unlike in `C`, `align(..)`, etc.
+fn is_integer_repr(path: &syn::Path) -> bool {
+    const INTEGERS: &[&str] = &[
+        "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
+    ];
+    INTEGERS.iter().any(|integer| path.is_ident(integer))
+}
+
 fn decide_tag(untagged: BoolAttr, internal_tag: Attr<String>, content: Attr<String>) -> TagType {
     match (
         untagged.0.get_with_tokens(),
-- 
2.43.0


From fe44068e8ff5478c29140f3b3d1c8b3073392fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 23/34] fix: describe the tag of internally tagged structs

---
 opg_derive/src/opg.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 34e4c39..61084e2 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -553,6 +553,33 @@ fn serialize_struct(container: &Container, fields: &[Field]) -> proc_macro2::Tok
         }
     };
 
+    let body = match &container.attrs.tag_type {
+        TagType::Internal { tag } => {
+            let name = container.attrs.name.serialized();
+
+            quote! {
+                {
+                    let mut model = #body;
+                    if let _opg::ModelData::Single(_opg::ModelType {
+                        type_description: _opg::ModelTypeDescription::Object(object),
+                        ..
+                    }) = &mut model.data {
+                        let _ = object.add_property(
+                            #tag.to_owned(),
+                            _opg::ModelReference::Inline(_opg::describe_type!(string => {
+                                example: #name
+                                variants: [#name]
+                            })),
+                            true
+                        );
+                    }
+                    model
+                }
+            }
+        }
+        _ => body,
+    };
+
     implement_type(&container.ident, body, container.attrs.inline)
 }
 
-- 
2.43.0


From 5a14ac65e158484f3ea1c7ef876683a068e2daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:41 +0000
Subject: [PATCH 24/34] fix: reject descriptions which are not string literals

---
 opg_derive/src/attr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 1320483..c81effa 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -126,6 +126,8 @@ impl Container {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -256,6 +258,8 @@ impl Variant {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -381,6 +385,8 @@ impl Field {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string literal");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
-- 
2.43.0


From fd8095096df38fbfe49b8f63f49e6c4d462d2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 25/34] fix: document the numbers of repr enums as they are
 serialized

---
 opg_derive/src/opg.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 61084e2..22e6085 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -89,19 +89,19 @@ fn is_unit_or_skipped(variant: &Variant) -> bool {
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
 
-    let body = if container.attrs.has_repr {
+    // Enums with data can't be serialized as numbers
+    let is_numeric = container.attrs.has_repr
+        && variants
+            .iter()
+            .all(|variant| matches!(variant.original.fields, syn::Fields::Unit));
+
+    let body = if is_numeric {
         let variants = variants
             .iter()
-            .enumerate()
-            .filter(|(_, variant)| !variant.attrs.skip_serializing)
-            .map(|(index, variant)| {
+            .filter(|variant| !variant.attrs.skip_serializing)
+            .map(|variant| {
+                let ident = &variant.ident;
                 let description = format!("{} variant", variant.attrs.name.serialized());
-                let example = match &variant.original.discriminant {
-                    Some((_, discriminant)) => {
-                        quote::ToTokens::to_token_stream(discriminant).to_string()
-                    }
-                    None => index.to_string(),
-                };
 
                 quote! {
                     _opg::Model {
@@ -110,7 +110,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some((Self::#ident as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0


From 5b2e03120904a5ee1a6d67106215e40ef079be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 26/34] fix: honour annotations of enums and variants described
 as strings and numbers

---
 opg_derive/src/opg.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 22e6085..4e411f9 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -101,7 +101,15 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             .filter(|variant| !variant.attrs.skip_serializing)
             .map(|variant| {
                 let ident = &variant.ident;
-                let description = format!("{} variant", variant.attrs.name.serialized());
+                let description = match &variant.attrs.description {
+                    Some(description) => description.clone(),
+                    None => format!("{} variant", variant.attrs.name.serialized()),
+                };
+                let format = option_string(variant.attrs.format.as_deref());
+                let example = match &variant.attrs.example {
+                    Some(example) => option_to_string_expr(Some(example)),
+                    None => quote! { Some((Self::#ident as i128).to_string()) },
+                };
 
                 quote! {
                     _opg::Model {
@@ -109,8 +117,8 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
-                                format: None,
-                                example: Some((Self::#ident as i128).to_string()),
+                                format: #format,
+                                example: #example,
                             })
                         }),
                     }
@@ -134,7 +142,11 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             .map(|variant| variant.attrs.name.serialized())
             .collect::<Vec<_>>();
 
-        let example = option_string(variants.first().map(|x| x.as_str()));
+        let format = option_string(container.attrs.format.as_deref());
+        let example = match &container.attrs.example {
+            Some(example) => option_to_string_expr(Some(example)),
+            None => option_string(variants.first().map(|x| x.as_str())),
+        };
 
         quote! {
             _opg::Model {
@@ -144,7 +156,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-                            format: None,
+                            format: #format,
                             example: #example,
                         }
                     })
@@ -356,6 +368,11 @@ fn serialize_external_tagged_enum(
                 let type_description = match &variant.style {
                     StructStyle::Unit => {
                         let description = option_string(variant.attrs.description.as_deref());
+                        let format = option_string(variant.attrs.format.as_deref());
+                        let example = match &variant.attrs.example {
+                            Some(example) => option_to_string_expr(Some(example)),
+                            None => quote! { Some(#variant_name.to_owned()) },
+                        };
 
                         quote! {
                             _opg::ModelReference::Inline(
@@ -366,8 +383,8 @@ fn serialize_external_tagged_enum(
                                         type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                                             variants: Some(vec![#variant_name.to_owned()]),
                                             data: _opg::ModelSimple {
-                                                format: None,
-                                                example: Some(#variant_name.to_owned()),
+                                                format: #format,
+                                                example: #example,
                                             }
                                         })
                                     })
-- 
2.43.0


From 9f0092d8c0b2911f93125ada36a6bd0d9e068e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:49 +0000
Subject: [PATCH 27/34] fix: accept a trailing comma after the paths of a
 callback

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index d9f520e..bb4f1e0 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -624,14 +624,14 @@ macro_rules! describe_api {
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
         let mut callback_object = $crate::models::CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
         let mut callback_object = $crate::models::CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From 649804e8c1c4cd76b50ab7b29e3463863b84c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:28 +0000
Subject: [PATCH 28/34] fix: name path parameters after types with non-ASCII
 names

---
 opg/src/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index bb4f1e0..9fb7c49 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -736,7 +736,8 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let mut chars = name.chars();
+                chars.next().into_iter().flat_map(char::to_lowercase).chain(chars).collect::<String>()
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From 227b7637c254d92ddc23c1795d7ea885b227750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:09 +0000
Subject: [PATCH 29/34] fix: describe phantom members of generic types

---
 opg/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 4ba08a8..3ded9b1 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -145,6 +145,22 @@ impl OpgModel for () {
     }
 }
 
+impl<T: ?Sized> OpgModel for std::marker::PhantomData<T> {
+    fn get_schema(cx: &mut Components) -> Model {
+        <() as OpgModel>::get_schema(cx)
+    }
+
+    #[inline]
+    fn type_name() -> Option<Cow<'static, str>> {
+        None
+    }
+
+    #[inline]
+    fn select_reference(cx: &mut Components, _: bool, params: &ContextParams) -> ModelReference {
+        ModelReference::Inline(Self::get_schema(cx).apply_params(params))
+    }
+}
+
 #[cfg(feature = "uuid")]
 impl OpgModel for uuid::Uuid {
     fn get_schema(_: &mut Components) -> Model {
-- 
2.43.0


From cbab53d56023918f0ee2f028661a20d8e5df59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 30/34] fix: a phantom member is not the content of a
 transparent struct

---
 opg_derive/src/bound.rs | 10 ++++++++++
 opg_derive/src/opg.rs   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/bound.rs b/opg_derive/src/bound.rs
index 630208f..2554975 100644
--- a/opg_derive/src/bound.rs
+++ b/opg_derive/src/bound.rs
@@ -133,6 +133,16 @@ pub fn with_bound(
     generics
 }
 
+pub fn is_phantom_data(ty: &syn::Type) -> bool {
+    match ungroup(ty) {
+        syn::Type::Path(ty) => match ty.path.segments.last() {
+            Some(seg) => seg.ident == "PhantomData",
+            None => false,
+        },
+        _ => false,
+    }
+}
+
 fn ungroup(mut ty: &syn::Type) -> &syn::Type {
     while let syn::Type::Group(group) = ty {
         ty = &group.elem;
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 4e411f9..db08279 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -52,7 +52,7 @@ fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
         Data::Enum(variants) => serialize_enum(container, variants),
         Data::Struct(_, fields) if container.attrs.transparent => fields
             .iter()
-            .find(|field| !field.attrs.skip_serializing)
+            .find(|field| !field.attrs.skip_serializing && !bound::is_phantom_data(field.ty))
             .map(|field| serialize_newtype_struct(container, field))
             .unwrap_or_default(), // serde requires exactly one field
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
-- 
2.43.0


From 71b17ac66f7695b89314a02f3b45c018518e84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 31/34] fix: describe newtypes marked as any

---
 opg_derive/src/opg.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index db08279..e52f1ef 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -624,20 +624,29 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let explicit_model_type = match field.attrs.explicit_model_type {
-        Some(ExplicitModelType::Any) | None => container.attrs.explicit_model_type,
-        explicit_model_type => explicit_model_type,
-    };
+    let explicit_model_type = field
+        .attrs
+        .explicit_model_type
+        .or(container.attrs.explicit_model_type);
 
     let body = match explicit_model_type {
-        Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-            newtype_model(
-                container.attrs.nullable || field.attrs.nullable,
-                context_params,
-                explicit_model_type,
-            )
+        Some(ExplicitModelType::Any) => {
+            let (description, ..) = context_params.split();
+
+            quote! {
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::AnyOf(_opg::ModelAnyOf {
+                        any_of: vec![_opg::ModelReference::Any],
+                    }),
+                }
+            }
         }
-        Some(_) => unreachable!(),
+        Some(explicit_model_type) => newtype_model(
+            container.attrs.nullable || field.attrs.nullable,
+            context_params,
+            explicit_model_type,
+        ),
         None => {
             let context_params = context_params.tokenize();
 
-- 
2.43.0


From 394fab37a41887cf3bd6e4d929e82b8c80fabdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:40 +0000
Subject: [PATCH 32/34] fix: evaluate info values in the scope of the caller

---
 opg/src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 9fb7c49..31cb3ae 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -354,9 +354,8 @@ macro_rules! describe_api {
 
 
     (@opg_property $result:ident info $($property:ident: $property_value:expr),*$(,)?) => {{
-        $(let $property = $crate::describe_api!(@opg_info_property $property $property_value));*;
         $result.info = $crate::models::Info {
-            $($property,)*
+            $($property: $crate::describe_api!(@opg_info_property $property $property_value),)*
             ..Default::default()
         };
     }};
-- 
2.43.0


From 4cdf9c217cb0ebc7a3bd389857640403ad2f497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:04 +0000
Subject: [PATCH 33/34] fix: derive without a compiler warning

---
 opg_derive/src/dummy.rs | 14 ++------------
 opg_derive/src/opg.rs   |  2 +-
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/opg_derive/src/dummy.rs b/opg_derive/src/dummy.rs
index 530de02..472e6bc 100644
--- a/opg_derive/src/dummy.rs
+++ b/opg_derive/src/dummy.rs
@@ -1,14 +1,4 @@
-pub fn wrap_in_const(
-    trait_: &str,
-    ty: &syn::Ident,
-    code: proc_macro2::TokenStream,
-) -> proc_macro2::TokenStream {
-    let dummy_const = if cfg!(underscore_consts) {
-        quote::format_ident!("_")
-    } else {
-        quote::format_ident!("_IMPL_{}_FOR_{}", trait_, unraw(ty))
-    };
-
+pub fn wrap_in_const(code: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
     let use_opg = quote::quote! {
         #[allow(rust_2018_idioms, clippy::useless_attribute)]
         extern crate opg as _opg;
@@ -17,7 +7,7 @@ pub fn wrap_in_const(
     quote::quote! {
         #[doc(hidden)]
         #[allow(non_upper_case_globals, unused_attributes, unused_qualifications)]
-        const #dummy_const: () = {
+        const _: () = {
             #use_opg
             #code
         };
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index e52f1ef..03daf6e 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -31,7 +31,7 @@ pub fn impl_derive_opg_model(
 
     // println!("{}", result.to_string());
 
-    Ok(dummy::wrap_in_const("OPG_MODEL", ident, result))
+    Ok(dummy::wrap_in_const(result))
 }
 
 fn build_generics(cont: &Container) -> syn::Generics {
-- 
2.43.0


From 0f9991943a5d25ca7ce8328e58ad37e0c6b43f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:51 +0000
Subject: [PATCH 34/34] fix: an inline type may have a function named
 get_schema

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 03daf6e..1c587e6 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -922,7 +922,7 @@ fn implement_type(
 
             #[inline]
             fn select_reference(cx: &mut _opg::Components, _: bool, params: &_opg::ContextParams) -> _opg::ModelReference {
-                _opg::ModelReference::Inline(Self::get_schema(cx).apply_params(params))
+                _opg::ModelReference::Inline(<Self as _opg::OpgModel>::get_schema(cx).apply_params(params))
             }
         }
     } else {
-- 
2.43.0

