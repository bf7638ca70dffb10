From 75c711fad06f07620a35674c3608d357d8eb4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 01/36] fix: report the end of the document instead of looping
 on it in struct deserialization

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..36b0b08 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::string::String::from("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From bb187540e7d187dcf1f42de3faa1fbbc4c0ba7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 02/36] fix: return an error instead of panicking on malformed
 scalar enum payloads

---
 yaserde_derive/src/de/expand_enum.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..cf7acdd 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -182,12 +182,21 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
 
       let simple_type_visitor = |simple_type: Field| {
         let visitor = simple_type.get_simple_type_visitor();
+        let map_if_bool = if matches!(simple_type, Field::FieldBool) {
+          quote!(match v {
+            "1" => "true",
+            "0" => "false",
+            _ => v,
+          })
+        } else {
+          quote!(v)
+        };
         let field_type = simple_type.into();
 
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(#map_if_bool).map_err(|e| e.to_string()) },
         )
       };
 
@@ -257,9 +266,8 @@ fn build_unnamed_visitor_calls(
             }
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
-          }
+          let value = result?;
+          #action
         })
       };
 
-- 
2.43.0


From 509b368d0124a43a1d4b5e54ba3f6c0893e99c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 03/36] fix: read an empty element as the empty string

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 36b0b08..a708e8b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -511,6 +511,10 @@ fn build_call_visitor(
       #namespaces_matching
 
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
+        if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
+          return visitor.#visitor("");
+        }
+
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
-- 
2.43.0


From 17dac71a2298b00a6837873ef26327ef35d9493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:08 +0000
Subject: [PATCH 04/36] fix: read an element without text as an empty text
 content

---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index a708e8b..ba73370 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -357,6 +357,10 @@ pub fn parse(
         Field::FieldOption { .. } | Field::FieldVec { .. } => {
           quote! { #label: #value_label, }
         }
+        Field::FieldString if field.is_text_content() && field.get_default_function().is_none() => {
+          // An element without any text has an empty text content
+          quote! { #label: #value_label.unwrap_or_default(), }
+        }
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
-- 
2.43.0


From 5cd591496bc14d06064b21b6919ff4027acd3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 05/36] fix: split CDATA terminators in serialized CDATA
 content

---
 yaserde_derive/src/ser/expand_struct.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..353eb6a 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -166,7 +166,15 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // A CDATA section can't contain its own terminator: spread it over two sections
+              let mut yaserde_rest: &str = &self.#label;
+              while let ::std::option::Option::Some(position) = yaserde_rest.find("]]>") {
+                let (yaserde_section, yaserde_next) = yaserde_rest.split_at(position + 2);
+                let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(yaserde_section);
+                writer.write(data).map_err(|e| e.to_string())?;
+                yaserde_rest = yaserde_next;
+              }
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(yaserde_rest);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From 70a1897add58aef2b8dcc1dde01a533639e11d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:59 +0000
Subject: [PATCH 06/36] fix: always consume the element of a nested struct
 before matching its fields

---
 yaserde_derive/src/de/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index ba73370..e1cb440 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -425,7 +425,9 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              if depth == 0
+                && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace))
+              {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below.
                 let event = reader.next_event()?;
-- 
2.43.0


From 2414d7cd41aefa990d1d072b550a419ef3d54fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 07/36] fix: keep the first nested struct of a flattened root

---
 yaserde_derive/src/de/expand_struct.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index e1cb440..a3a1455 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -154,10 +154,6 @@ pub fn parse(
       let visit_struct = |struct_name: syn::Path, action: TokenStream| {
         Some(quote! {
           (#namespace, #label_name) => {
-            if depth == 0 {
-              // Don't count current struct's StartElement as substruct's StartElement
-              let _root = reader.next_event();
-            }
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
-- 
2.43.0


From a70d573279bc22cbf379cc7d1af12888de983069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:59 +0000
Subject: [PATCH 08/36] fix: honor skip_serializing on attributes

---
 yaserde_derive/src/common/field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..d9644dd 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -181,10 +181,14 @@ impl YaSerdeField {
       .map(|builder| quote!(let yaserde_inner = #builder;))
       .unwrap_or_default();
 
+    let skip_serializing = self.is_skip_serializing();
+
     let skip_if = self
       .get_skip_serializing_if_function()
-      .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
-      .unwrap_or(quote!(true));
+      .map(|skip_if_function| {
+        quote!(!#skip_serializing && !self.#skip_if_function(&self.#label))
+      })
+      .unwrap_or(quote!(!#skip_serializing));
 
     self
       .get_default_function()
-- 
2.43.0


From 191f458b8ef3ae131f47c161f3f20e8705097b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:16 +0000
Subject: [PATCH 09/36] fix: apply skip and default conditions to text content
 and flattened attributes

---
 yaserde_derive/src/ser/expand_struct.rs | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 353eb6a..f3d5b25 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -123,13 +123,17 @@ pub fn serialize(
       } else {
         match field.get_type() {
           Field::FieldStruct { .. } => {
+            let conditions = condition_generator(&label, &field);
+
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                let (attributes, namespace) = self.#label.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                child_attributes.extend(attributes);
+              }
             )
           }
           _ => quote!(),
@@ -145,21 +149,26 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
+
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From c336c02f91cd1fd66bf04960b4a9b39189e6356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:20 +0000
Subject: [PATCH 10/36] fix: write the attributes of optional flattened members

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index f3d5b25..3fac6d3 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -136,6 +136,22 @@ pub fn serialize(
               }
             )
           }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            let conditions = condition_generator(&label, &field);
+
+            quote!(
+              #conditions {
+                if let ::std::option::Option::Some(ref item) = self.#label {
+                  let (attributes, namespace) = item.serialize_attributes(
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  child_attributes_namespace.extend(&namespace);
+                  child_attributes.extend(attributes);
+                }
+              }
+            )
+          }
           _ => quote!(),
         }
       }
-- 
2.43.0


From 8324778e63bb4b8d59cb835bcc1fe745fb710f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 11/36] fix: write flattened enum variants under their own name
 in any position

---
 yaserde_derive/src/ser/expand_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..0ca9835 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -300,7 +300,11 @@ fn inner_enum_inspector(
                 }
                 Field::FieldStruct { .. } => {
                   if variant_attrs.flatten || field.is_flatten() {
-                     match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
+                     match_field(&quote! {
+                       writer.set_start_event_name(::std::option::Option::None);
+                       writer.set_skip_start_end(false);
+                       ::yaserde::YaSerialize::serialize(item, writer)?
+                     })
                    } else {
                      write_element(&match_field(&serialize))
                    }
-- 
2.43.0


From b0f7ec4a02a85266be07028e40b07e8b5be34700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:41 +0000
Subject: [PATCH 12/36] fix: check the namespace of an enum only at the
 document root, as for structs

---
 yaserde_derive/src/de/expand_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index cf7acdd..8f32abd 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -56,7 +56,9 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        if reader.depth() == 0 {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
-- 
2.43.0


From b24e595847bccbb1bd8dfad0bbd6a19f6a4f4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:32 +0000
Subject: [PATCH 13/36] fix: read flattened members of elements that belong to
 a namespace

---
 yaserde/src/de/mod.rs                  | 9 +++++++++
 yaserde_derive/src/de/expand_struct.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..6e36aec 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,6 +14,15 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
+/// Deserialize the content of a flattened member out of the element that contains it.
+/// The namespace of that element belongs to the containing type, it isn't checked again.
+#[doc(hidden)]
+pub fn from_str_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
+  let mut deserializer = Deserializer::new_from_reader(s.as_bytes());
+  deserializer.depth = 1;
+  <T as YaDeserialize>::deserialize(&mut deserializer)
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index a3a1455..c8b4b1b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -206,11 +206,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_str(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_str_flattened(&unused_xml_elements)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_str(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_str_flattened(&unused_xml_elements).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
-- 
2.43.0


From 063453e36f3ea61ffa90359b5fc39989a6dfddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:26 +0000
Subject: [PATCH 14/36] fix: don't look for enum variants inside unknown
 elements

---
 yaserde_derive/src/de/expand_enum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 8f32abd..6e31742 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -71,7 +71,13 @@ pub fn parse(
               match #element_name {
                 #match_to_enum
                 _named_element => {
+                  let is_own_element = reader.depth() == start_depth;
                   let _root = reader.next_event();
+
+                  if !is_own_element {
+                    // The content of an unknown element doesn't belong to this enum
+                    reader.skip_element(|_event| {})?;
+                  }
                 }
               }
 
-- 
2.43.0


From ff570dba672e8221c283b32bdeb6931d95905728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 15/36] fix: report write errors of scalar values

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 75a0b6edce6f908499487a2d69dae23935e41e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 16/36] fix: parse hexBinary values in the base they are
 written in

---
 yaserde_derive/src/primitives.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..ee3c17e 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -70,9 +70,12 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
       type Err = ::std::string::String;
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
+        // The integer is written in base 16
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          ::std::primitive::u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryInto::try_into(bits).ok())
+              .ok_or_else(|| String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 68ac835865597bf998ff4a7ef6185d67093123b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 17/36] fix: write attributes that hold a sequence instead of
 dropping them

---
 yaserde_derive/src/ser/expand_struct.rs | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 3fac6d3..ad790ad 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,29 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let item = match *data_type {
+              Field::FieldStruct { .. } => quote!(::yaserde::ser::to_string_content(item)?),
+              _ => quote!(item.to_string()),
+            };
+
+            // The items are separated by white spaces, as they are when reading the attribute
+            field.ser_wrap_default_attribute(
+              Some(quote!({
+                let mut items = ::std::vec::Vec::<::std::string::String>::new();
+                for item in &self.#label {
+                  items.push(#item);
+                }
+                items.join(" ")
+              })),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From 35582fc2c27df55608b64e648481c787a49e037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 18/36] fix: name the markup of raw identifiers without their
 r# prefix

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index d9644dd..dfb3df5 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 42640f6f96fd38546296fa3664451608a37656b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:55 +0000
Subject: [PATCH 19/36] fix: give every field its own visitor even when names
 differ only by case

---
 yaserde_derive/src/common/field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index dfb3df5..2a04c5b 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -107,9 +107,15 @@ impl YaSerdeField {
       .then_some("Attribute_".to_string())
       .unwrap_or_default();
 
+    // Different names may have the same camel case form, the name of the field makes it unique
+    let field = self
+      .label()
+      .map(|label| format!("_{}", label.unraw()))
+      .unwrap_or_default();
+
     Ident::new(
       &format!(
-        "__Visitor_{attribute}{}{}_{}",
+        "__Visitor_{attribute}{}{}_{}{field}",
         prefix,
         label.replace('.', "_").to_upper_camel_case(),
         struct_id
-- 
2.43.0


From 7a05e7b3722c23d59b2aef99a9ed4862513635ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 20/36] fix: write the attributes and namespaces of structs
 held by enum variants

---
 yaserde_derive/src/ser/expand_enum.rs | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 0ca9835..6b89acb 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -261,11 +261,29 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              // The element of the variant carries the attributes and namespaces of its content
+              let write_struct = quote! {
+                let (attributes, namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                  item,
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                writer.write(::yaserde::__xml::writer::XmlEvent::StartElement {
+                  name: #label_name.into(),
+                  attributes: attributes.iter().map(|attribute| attribute.borrow()).collect(),
+                  namespace: ::std::borrow::Cow::Owned(namespace),
+                }).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                Field::FieldStruct { .. } => write_struct.clone(),
+                _ => write_element(&serialize),
               };
 
               let match_field = |write: &TokenStream| {
@@ -306,7 +324,7 @@ fn inner_enum_inspector(
                        ::yaserde::YaSerialize::serialize(item, writer)?
                      })
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_struct)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From 8bcc818b90301f79e2b1b143db04269ae4b8fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 21/36] fix: derive deserialization for generic enums

---
 yaserde_derive/src/de/expand_enum.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 6e31742..a878a02 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,5 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
 
@@ -113,7 +113,7 @@ pub fn parse(
         }
 
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
-        ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
+        ::std::result::Result::Ok(enum_value.unwrap_or(<Self as ::std::default::Default>::default()))
       }
     }
   }
@@ -209,24 +209,8 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
       };
 
       match field.get_type() {
-        Field::FieldStruct { struct_name } => {
-          let struct_id: String = struct_name
-            .segments
-            .iter()
-            .map(|s| s.ident.to_string())
-            .collect();
-
-          Some(make_visitor(
-            &Ident::new("visit_str", Span::call_site()),
-            &quote! { #struct_name },
-            &quote! {
-              let content = "<".to_string() + #struct_id + ">" + v + "</" + #struct_id + ">";
-              let value: ::std::result::Result<#struct_name, ::std::string::String> =
-                ::yaserde::de::from_str(&content);
-              value
-            },
-          ))
-        }
+        // Structs deserialize themselves, they need no visitor
+        Field::FieldStruct { .. } => None,
         Field::FieldOption { data_type } | Field::FieldVec { data_type } => match *data_type {
           Field::FieldStruct { .. } => None,
           simple_type => Some(simple_type_visitor(simple_type)),
-- 
2.43.0


From 85081fbe4f78f3c98bd1ac1c516eb986b5e6faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:01 +0000
Subject: [PATCH 22/36] fix: allow type parameters named R and W on derived
 types

---
 yaserde_derive/src/de/expand_enum.rs           | 4 ++--
 yaserde_derive/src/de/expand_struct.rs         | 4 ++--
 yaserde_derive/src/ser/implement_serializer.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index a878a02..2ecaab3 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -43,8 +43,8 @@ pub fn parse(
   quote! {
     impl #impl_generics ::yaserde::YaDeserialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn deserialize<R: ::std::io::Read>(
-        reader: &mut ::yaserde::de::Deserializer<R>,
+      fn deserialize<YaserdeReader: ::std::io::Read>(
+        reader: &mut ::yaserde::de::Deserializer<YaserdeReader>,
       ) -> ::std::result::Result<Self, ::std::string::String> {
         let (named_element, enum_namespace) =
           if let ::yaserde::__xml::reader::XmlEvent::StartElement{ name, .. } = reader.peek()?.to_owned() {
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c8b4b1b..7dbb9e9 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -389,8 +389,8 @@ pub fn parse(
   quote! {
     impl #impl_generics ::yaserde::YaDeserialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn deserialize<R: ::std::io::Read>(
-        reader: &mut ::yaserde::de::Deserializer<R>,
+      fn deserialize<YaserdeReader: ::std::io::Read>(
+        reader: &mut ::yaserde::de::Deserializer<YaserdeReader>,
       ) -> ::std::result::Result<Self, ::std::string::String> {
         let (named_element, struct_namespace) =
           if let ::yaserde::__xml::reader::XmlEvent::StartElement { name, .. } = reader.peek()?.to_owned() {
diff --git a/yaserde_derive/src/ser/implement_serializer.rs b/yaserde_derive/src/ser/implement_serializer.rs
index 82c3759..d7c239f 100644
--- a/yaserde_derive/src/ser/implement_serializer.rs
+++ b/yaserde_derive/src/ser/implement_serializer.rs
@@ -21,9 +21,9 @@ pub fn implement_serializer(
   quote! {
     impl #impl_generics ::yaserde::YaSerialize for #name #ty_generics #where_clause {
       #[allow(unused_variables)]
-      fn serialize<W: ::std::io::Write>(
+      fn serialize<YaserdeWriter: ::std::io::Write>(
         &self,
-        writer: &mut ::yaserde::ser::Serializer<W>,
+        writer: &mut ::yaserde::ser::Serializer<YaserdeWriter>,
       ) -> ::std::result::Result<(), ::std::string::String> {
         let skip = writer.skip_start_end();
 
-- 
2.43.0


From 6adeea8612c20e98f64434960a3d7e8ba92a11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:23 +0000
Subject: [PATCH 23/36] fix: don't take the own element of an enum for one of
 its variants

---
 yaserde_derive/src/de/expand_enum.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 2ecaab3..4783c97 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -24,6 +24,7 @@ pub fn parse(
     .collect();
 
   let flatten = root_attributes.flatten;
+  let is_selected_by_own_element = flatten || root_attributes.tag.is_some();
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
   let element_name = if let Some(tag) = &root_attributes.tag {
@@ -68,10 +69,15 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
+              let is_own_element = reader.depth() == start_depth;
+
               match #element_name {
+                // The name of the own element is given by the containing type, it isn't a variant
+                _ if is_own_element && !#is_selected_by_own_element => {
+                  let _root = reader.next_event();
+                }
                 #match_to_enum
                 _named_element => {
-                  let is_own_element = reader.depth() == start_depth;
                   let _root = reader.next_event();
 
                   if !is_own_element {
-- 
2.43.0


From 8e1ab5091797c792f5a04893fcf9ddbb54135872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 24/36] fix: consume the whole element of a unit variant

---
 yaserde_derive/src/de/expand_enum.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 4783c97..124018c 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -118,6 +118,14 @@ pub fn parse(
           }
         }
 
+        // A unit variant is recognized before the end of the element, the rest belongs to it as well
+        while !matches!(*reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndDocument)
+          && !(reader.depth() == start_depth + 1
+            && matches!(*reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndElement { .. }))
+        {
+          reader.next_event()?;
+        }
+
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
         ::std::result::Result::Ok(enum_value.unwrap_or(<Self as ::std::default::Default>::default()))
       }
-- 
2.43.0


From a680dd06fd266721b5d361a6d8332eac94c79f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 25/36] fix: match the text of an enum with its unit variants
 only, wherever it is

---
 yaserde_derive/src/de/expand_enum.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 124018c..22c2a05 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -23,6 +23,14 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
+  // Only unit variants are written as text
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| root_attributes.tag.is_none() && matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let is_selected_by_own_element = flatten || root_attributes.tag.is_some();
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
@@ -86,13 +94,6 @@ pub fn parse(
                   }
                 }
               }
-
-              if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
-                match content.as_str() {
-                  #match_to_enum
-                  _ => {}
-                }
-              }
             }
             ::yaserde::__xml::reader::XmlEvent::EndElement { ref name } => {
               if name.local_name == named_element && reader.depth() == start_depth + 1 {
@@ -101,6 +102,10 @@ pub fn parse(
               let _root = reader.next_event();
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
+              match text_content.as_str() {
+                #match_text_to_enum
+                _ => {}
+              }
               let _root = reader.next_event();
             }
             ::yaserde::__xml::reader::XmlEvent::EndDocument => {
-- 
2.43.0


From a59b8a6e7cc91c229751e9d5ce0b75a6629ad365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:23 +0000
Subject: [PATCH 26/36] fix: don't read the rest of an invalid scalar element
 into the containing struct

---
 yaserde_derive/src/de/expand_struct.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 7dbb9e9..ce1625b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -512,6 +512,8 @@ fn build_call_visitor(
 
       #namespaces_matching
 
+      let field_depth = reader.depth();
+
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
         if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
           return visitor.#visitor("");
@@ -526,6 +528,11 @@ fn build_call_visitor(
         }
       });
 
+      // What is left of an element that holds no valid value doesn't belong to this struct
+      while reader.depth() > field_depth {
+        reader.next_event()?;
+      }
+
       if let ::std::result::Result::Ok(value) = result {
         #value_label#action
       }
-- 
2.43.0


From cb56446a4292bb8b756a7be4d9c6dcb9c208e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 27/36] fix: consume the whole content of a primitive newtype

---
 yaserde/src/primitives.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..4a86278 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,9 +43,19 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
+  let depth = reader.depth();
+
+  let value = if let xml::reader::XmlEvent::Characters(ref text) = reader.peek()? {
+    deserialize_function(text)?
   } else {
-    deserialize_function("")
+    deserialize_function("")?
+  };
+
+  // Leave nothing but the end of the element, it belongs to the caller
+  while reader.depth() > depth || !matches!(reader.peek()?, xml::reader::XmlEvent::EndElement { .. })
+  {
+    reader.next_event()?;
   }
+
+  Ok(value)
 }
-- 
2.43.0


From 35a46144ab3b4f41e7bc804709b7b53d47772755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 28/36] fix: DefaultYaSerde needs no FromStr import where it is
 derived

---
 yaserde_derive/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index ee3c17e..7ca77a2 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -46,7 +46,7 @@ pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
           ) -> ::std::result::Result<Self, ::std::string::String> {
               ::yaserde::primitives::deserialize_primitives(
                   reader,
-                  |s| #struct_name::from_str(s).map_err(|e| e.to_string()),
+                  |s| <#struct_name as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()),
               )
           }
       }
-- 
2.43.0


From 704c74a8bb3db3d47f5463ecd54d359d15f3c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 29/36] fix: write DefaultYaSerde types with Display even if
 they have a method to_string of their own

---
 yaserde_derive/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 7ca77a2..46d6217 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -21,7 +21,7 @@ pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
             ::yaserde::primitives::serialize_primitives(
                   self,
                   #struct_name_literal,
-                  writer, |s| s.to_string(),
+                  writer, |s| ::std::string::ToString::to_string(s),
               )
           }
 
-- 
2.43.0


From 0ee0be4a0f5d60bbe226c8e7c45d0cb7ab14f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 30/36] fix: name the standard library by an absolute path in
 PrimitiveYaSerde and HexBinaryYaSerde

---
 yaserde_derive/src/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 46d6217..7fabb4b 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -60,8 +60,8 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
   let DeriveInput { ident, .. } = parse_macro_input!(first);
   // Calculate number digits to determine whether leading zero should be added
   quote!(
-    impl std::fmt::Display for #ident {
-      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    impl ::std::fmt::Display for #ident {
+      fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
         write!(f, "{:02X}", self.0)
       }
     }
@@ -90,8 +90,8 @@ pub fn primitive_serde(input: TokenStream) -> TokenStream {
   let fromstr = extract_full_path(di).unwrap();
 
   quote!(
-    impl std::fmt::Display for #ident {
-      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    impl ::std::fmt::Display for #ident {
+      fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
         write!(f, "{}", self.0)
       }
     }
-- 
2.43.0


From 283b074f5d1e894eb7a06aa0a6dce8a57b2023ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 31/36] fix: DefaultYaSerde root elements of types with raw
 identifiers are not named r#...

---
 yaserde_derive/src/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 7fabb4b..5d78b4a 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -4,13 +4,13 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
-use syn::{parse_macro_input, DeriveInput};
+use syn::{ext::IdentExt, parse_macro_input, DeriveInput};
 
 pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
   let ast = parse_macro_input!(input as DeriveInput);
 
   let struct_name = &ast.ident;
-  let struct_name_literal = &ast.ident.to_string();
+  let struct_name_literal = &ast.ident.unraw().to_string();
 
   let serde = quote! {
       impl ::yaserde::YaSerialize for #struct_name {
-- 
2.43.0


From c3da7fd38eeaf9a3a73264c5078761f46f6ce0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 32/36] fix: derive YaDeserialize with fields of types whose
 name is a raw identifier

---
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/de/expand_struct.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 2a04c5b..6b3cecd 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -89,7 +89,7 @@ impl YaSerdeField {
         struct_name
           .segments
           .iter()
-          .map(|s| s.ident.to_string())
+          .map(|s| s.ident.unraw().to_string())
           .collect()
       },
     );
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index ce1625b..fbc4f06 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -2,7 +2,7 @@ use super::build_default_value::{build_default_value, build_default_vec_value};
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
-use syn::{DataStruct, Generics, Ident};
+use syn::{ext::IdentExt, DataStruct, Generics, Ident};
 
 pub fn parse(
   data_struct: &DataStruct,
@@ -67,7 +67,7 @@ pub fn parse(
         let struct_id: String = struct_name
           .segments
           .iter()
-          .map(|s| s.ident.to_string())
+          .map(|s| s.ident.unraw().to_string())
           .collect();
 
         let visitor_label = field.get_visitor_ident(Some(&struct_name));
-- 
2.43.0


From 7799712942a74d506be7221fc2dbd7ffc1be8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:06 +0000
Subject: [PATCH 33/36] fix: write char, isize and usize members and sequences
 of scalars in struct-like variants with their own element

---
 yaserde_derive/src/common/field.rs      | 11 ++++++++
 yaserde_derive/src/ser/expand_enum.rs   | 37 ++++++++++++++++++++++++-
 yaserde_derive/src/ser/expand_struct.rs | 27 ++++++++++++++++++
 3 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 6b3cecd..ec44050 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -240,6 +240,17 @@ impl Field {
   pub fn get_simple_type_visitor(&self) -> Ident {
     format_ident!("visit_{}", self.to_string())
   }
+
+  /// Primitive types that can be serialized but not deserialized. Unlike structs they write their
+  /// text only, the element is up to the containing type.
+  pub fn is_write_only_primitive(&self) -> bool {
+    match self {
+      Field::FieldStruct { struct_name } => ["char", "isize", "usize"]
+        .iter()
+        .any(|primitive| struct_name.is_ident(primitive)),
+      _ => false,
+    }
+  }
 }
 
 impl From<&syn::Path> for Field {
diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 6b89acb..e81e612 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -1,5 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
-use crate::ser::{implement_serializer::implement_serializer, label::build_label_name};
+use crate::ser::{element::*, implement_serializer::implement_serializer, label::build_label_name};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Fields;
@@ -158,6 +158,41 @@ fn inner_enum_inspector(
               let field_label_name = field.renamed_label(root_attributes);
 
               match field.get_type() {
+                Field::FieldVec { data_type }
+                  if !matches!(
+                    *data_type,
+                    Field::FieldStruct { .. } | Field::FieldOption { .. } | Field::FieldVec { .. }
+                  ) || data_type.is_write_only_primitive() =>
+                {
+                  let item_ident = Ident::new("yaserde_item", field.get_span());
+                  let inner = enclose_formatted_characters_for_value(&item_ident, field_label_name);
+
+                  Some(quote! {
+                    match self {
+                      &#name::#label { ref #field_label, .. } => {
+                        for yaserde_item in #field_label {
+                          #inner
+                        }
+                      },
+                      _ => {},
+                    }
+                  })
+                }
+                write_only if write_only.is_write_only_primitive() => {
+                  let inner = enclose_formatted_characters_for_value(
+                    field_label.as_ref().unwrap(),
+                    field_label_name,
+                  );
+
+                  Some(quote! {
+                    match self {
+                      &#name::#label { ref #field_label, .. } => {
+                        #inner
+                      },
+                      _ => {},
+                    }
+                  })
+                }
                 Field::FieldString
                 | Field::FieldBool
                 | Field::FieldU8
diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index ad790ad..a557853 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -228,6 +228,9 @@ pub fn serialize(
       }
 
       match field.get_type() {
+        write_only if write_only.is_write_only_primitive() => {
+          serialize_element(&label, label_name, &conditions)
+        }
         Field::FieldString
         | Field::FieldBool
         | Field::FieldI8
@@ -242,6 +245,18 @@ pub fn serialize(
         | Field::FieldF64 => serialize_element(&label, label_name, &conditions),
 
         Field::FieldOption { data_type } => match *data_type {
+          ref write_only if write_only.is_write_only_primitive() => {
+            let item_ident = Ident::new("yaserde_item", field.get_span());
+            let inner = enclose_formatted_characters_for_value(&item_ident, label_name);
+
+            Some(quote! {
+              #conditions {
+                if let ::std::option::Option::Some(ref yaserde_item) = self.#label {
+                  #inner
+                }
+              }
+            })
+          }
           Field::FieldString
           | Field::FieldBool
           | Field::FieldI8
@@ -321,6 +336,18 @@ pub fn serialize(
           })
         }
         Field::FieldVec { data_type } => match *data_type {
+          ref write_only if write_only.is_write_only_primitive() => {
+            let item_ident = Ident::new("yaserde_item", field.get_span());
+            let inner = enclose_formatted_characters_for_value(&item_ident, label_name);
+
+            Some(quote! {
+              #conditions {
+                for yaserde_item in &self.#label {
+                  #inner
+                }
+              }
+            })
+          }
           Field::FieldString => {
             let item_ident = Ident::new("yaserde_item", field.get_span());
             let inner = enclose_formatted_characters_for_value(&item_ident, label_name);
-- 
2.43.0


From 9ea47c46a0bad79a63ee8a311974ac5eaae8675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:06 +0000
Subject: [PATCH 34/36] fix: use all #[yaserde] attributes of an item, not only
 the first one

---
 yaserde_derive/src/common/attribute.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 68a1140..e42ed11 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
@@ -82,7 +82,21 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
   fn from(attributes: &Vec<Attribute>) -> Self {
     attributes
       .iter()
-      .find_map(|attribute| YaSerdeAttribute::try_from(attribute).ok())
+      .filter(|attribute| attribute.path().is_ident("yaserde"))
+      .cloned()
+      .reduce(|mut all, attribute| {
+        // The settings of one item may be spread over several attributes
+        if let (Meta::List(all), Meta::List(list)) = (&mut all.meta, attribute.meta) {
+          match all.tokens.clone().into_iter().last() {
+            None => {}
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => {}
+            Some(_) => all.tokens.extend(quote!(,)),
+          }
+          all.tokens.extend(list.tokens);
+        }
+        all
+      })
+      .and_then(|attribute| YaSerdeAttribute::try_from(&attribute).ok())
       .unwrap_or_default()
   }
 }
-- 
2.43.0


From 76f387742ad7162f2b3e60648d52b93aea75e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:18 +0000
Subject: [PATCH 35/36] fix: don't read a text content from a child element of
 the same name

---
 yaserde_derive/src/de/expand_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fbc4f06..73832c3 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -55,6 +55,9 @@ pub fn parse(
       if field.is_attribute() {
         return true;
       };
+      if field.is_text_content() {
+        return false;
+      }
       match field.get_type() {
         Field::FieldVec { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
         Field::FieldOption { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
@@ -144,7 +147,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From ced0e91b431b5913bbfb0204074822735aa7064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 36/36] fix: write the items of sequences of options in
 elements named after the member

---
 yaserde_derive/src/ser/expand_struct.rs | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index a557853..c7a12c2 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -382,17 +382,29 @@ pub fn serialize(
               }
             })
           }
-          Field::FieldOption { .. } => Some(quote! {
-            #conditions {
-              for item in &self.#label {
-                if let Some(value) = item {
-                  writer.set_start_event_name(None);
+          Field::FieldOption { data_type } => {
+            let item_ident = Ident::new("yaserde_item", field.get_span());
+            let inner = match *data_type {
+              ref item_type @ Field::FieldStruct { .. }
+                if !item_type.is_write_only_primitive() =>
+              {
+                quote! {
+                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                   writer.set_skip_start_end(false);
-                  ::yaserde::YaSerialize::serialize(value, writer)?;
+                  ::yaserde::YaSerialize::serialize(#item_ident, writer)?;
                 }
               }
-            }
-          }),
+              _ => enclose_formatted_characters_for_value(&item_ident, label_name),
+            };
+
+            Some(quote! {
+              #conditions {
+                for yaserde_item in self.#label.iter().flatten() {
+                  #inner
+                }
+              }
+            })
+          }
           Field::FieldStruct { .. } => {
             if field.is_flatten() {
               Some(quote! {
-- 
2.43.0

