From bdea4e86256c9951a37e3c327a4fdc1ded3f2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 01/16] fix: report dangling references as load errors instead
 of panicking

---
 ifc_rs/src/meta/datamap/mod.rs    |  6 ++++-
 ifc_rs_verify_derive/src/field.rs | 39 +++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..4855be6 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -52,7 +52,11 @@ impl DataMap {
     }
 
     pub fn get_untyped(&self, id: impl Into<Id>) -> &dyn IfcType {
-        &**self.0.get(&id.into()).unwrap()
+        self.try_get_untyped(id).unwrap()
+    }
+
+    pub fn try_get_untyped(&self, id: impl Into<Id>) -> Option<&dyn IfcType> {
+        self.0.get(&id.into()).map(|ifc_type| &**ifc_type)
     }
 
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..3257a3c 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -124,6 +124,19 @@ impl Field {
         def
     }
 
+    /// Looks up the referenced object; a reference to an id which isn't part of the file is an error.
+    fn lookup(&self, id: TokenStream) -> TokenStream {
+        let struct_name = self.struct_name.to_string();
+        let var_name = self.variable_name.to_string();
+
+        quote! {
+            match ifc.data.try_get_untyped(#id) {
+                Some(t) => t,
+                None => anyhow::bail!("Variable {} of type {} references {} which doesn't exist", #var_name, #struct_name, #id),
+            }
+        }
+    }
+
     fn single_check(&self, typed: &TokenStream) -> TokenStream {
         let struct_name = self.struct_name.to_string();
         let var_name = self.variable_name.to_string();
@@ -140,6 +153,8 @@ impl Field {
 impl ToTokens for Field {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let var_name = &self.variable_name;
+        let lookup_id = self.lookup(quote! { id });
+        let lookup_deref = self.lookup(quote! { *id });
 
         let check = match &self.data_type {
             DataType::Id(id_or_list) => match id_or_list {
@@ -149,7 +164,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = #lookup_id;
                         #multiple
 
                     }
@@ -160,7 +175,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = #lookup_deref;
                             #multiple
 
                             Ok(())
@@ -174,7 +189,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = #lookup_id;
                         #single
 
                     }
@@ -186,7 +201,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = #lookup_id;
                             #single
 
                             Ok(())
@@ -201,7 +216,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = #lookup_id;
                             #single
                         }
 
@@ -215,7 +230,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = #lookup_id;
                                 #single
                             }
 
@@ -232,7 +247,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = #lookup_deref;
                             #multiple
                         }
 
@@ -245,7 +260,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = #lookup_deref;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +276,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = #lookup_id;
                             #single
                         }
 
@@ -275,7 +290,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = #lookup_id;
                                 #single
 
                                 Ok(())
@@ -292,7 +307,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = #lookup_id;
                                 #single
                             }
                         }
@@ -308,7 +323,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = #lookup_id;
                                     #single
                                 }
 
-- 
2.43.0


From 12eb5d499019d6ee1f7925a8ff721d0465512362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 02/16] fix: reject out-of-range timestamps instead of
 panicking while loading

---
 ifc_rs/src/parser/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From 1178d0849efad5c1d941c5257b95dfbc48f2508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 03/16] fix: reject malformed header timestamps instead of
 panicking while loading

---
 ifc_rs/src/meta/header/deserialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..3041f87 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,18 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
+        // a malformed timestamp fails the parser instead of panicking
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+            date_res.ok().map(Into::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
-- 
2.43.0


From 221ab1c918ca8ad7eea25ad4a006b887c8c21d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 04/16] fix: encode apostrophes so that written strings can be
 read back

---
 ifc_rs/src/parser/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..0b2a2bc 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -8,7 +8,9 @@ use crate::parser::{p_quote_word, IFCParse, IFCParser};
 // german umlaute. The easiest thing to use it `\X2\<unicode sequence>\X0\`
 //
 // https://technical.buildingsmart.org/resources/ifcimplementationguidance/string-encoding/
-const UMLAUTE_MAP: [(&str, &str); 7] = [
+//
+// An apostrophe would terminate the string, so it's written in the same way
+const UMLAUTE_MAP: [(&str, &str); 8] = [
     ("Ä", r#"\X2\00C4\X0\"#),
     ("ä", r#"\X2\00E4\X0\"#),
     ("Ö", r#"\X2\00D6\X0\"#),
@@ -16,6 +18,7 @@ const UMLAUTE_MAP: [(&str, &str); 7] = [
     ("Ü", r#"\X2\00DC\X0\"#),
     ("ü", r#"\X2\00FC\X0\"#),
     ("ß", r#"\X2\00DF\X0\"#),
+    ("'", r#"\X2\0027\X0\"#),
 ];
 
 fn translate_encode(inp: impl AsRef<str>) -> String {
-- 
2.43.0


From eff0980ea3b754fb0f38e3ec46e413efb2b1d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 05/16] fix: escape apostrophes in header strings

---
 ifc_rs/src/meta/header/deserialize.rs | 22 ++++++++++++++--------
 ifc_rs/src/meta/header/serialize.rs   | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 3041f87..3746900 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Utc};
 use strum::VariantNames;
 use winnow::combinator::{alt, delimited, preceded, repeat, separated};
 use winnow::prelude::*;
-use winnow::token::none_of;
+use winnow::token::{none_of, take_while};
 
 use super::description::{FileDescription, ImplementationLevel, ViewDefinition};
 use super::details::{
@@ -113,6 +113,12 @@ impl Header {
         )
     }
 
+    // an apostrophe inside of a header string is written as two apostrophes
+    fn p_text<'a>() -> impl IFCParser<'a, String> {
+        let p_part = alt((take_while(1.., |c: char| c != '\''), "''".value("'")));
+        delimited("'", repeat(.., p_part), "'")
+    }
+
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
         // a malformed timestamp fails the parser instead of panicking
         fn time_from_string(s: String) -> Option<DateTime<Utc>> {
@@ -123,14 +129,14 @@ impl Header {
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
-            p_quote_word().map(FileName),
+            Self::p_text().map(FileName),
         ));
-        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
+        let mut p_time = Self::p_text().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Author),
+                p_space_or_comment_surrounded(Self::p_text()).map(Author),
                 ",",
             )
             .map(|v: Vec<_>| AuthorList(v)),
@@ -140,7 +146,7 @@ impl Header {
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Organization),
+                p_space_or_comment_surrounded(Self::p_text()).map(Organization),
                 ",",
             )
             .map(|v: Vec<_>| OrganizationList(v)),
@@ -157,11 +163,11 @@ impl Header {
                 _: Comma::parse(),
                 organization: p_org,
                 _: Comma::parse(),
-                preprocessor_version: p_quote_word().map(PreprocessorVersion),
+                preprocessor_version: Self::p_text().map(PreprocessorVersion),
                 _: Comma::parse(),
-                originating_system: p_quote_word().map(OriginatingSystem),
+                originating_system: Self::p_text().map(OriginatingSystem),
                 _: Comma::parse(),
-                authorization: p_quote_word().map(Authorization),
+                authorization: Self::p_text().map(Authorization),
                 _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..2d52e03 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -9,6 +9,11 @@ use super::{
     Header,
 };
 
+// an apostrophe inside of a header string is written as two apostrophes
+fn escape(text: &str) -> String {
+    text.replace('\'', "''")
+}
+
 impl Display for Header {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         writeln!(f, "{version};", version = self.version)?;
@@ -54,7 +59,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "'{name}'", name = escape(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +73,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| format!("'{a}'", a = escape(&author.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +83,18 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| format!("'{o}'", o = escape(&org.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        let prep_v = escape(&self.preprocessor_version.0);
+        write!(f, "'{prep_v}'")?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        let sys = escape(&self.originating_system.0);
+        write!(f, "'{sys}'")?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        let auth = escape(&self.authorization.0);
+        write!(f, "'{auth}'")?;
         Ok(())
     }
 }
-- 
2.43.0


From 91ee6f0034f6d4586fc1b22d01be7a82c9187816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 06/16] fix: don't end unknown records at semicolons inside of
 strings or comments

---
 ifc_rs/src/parser/dummy.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..bf2ef0e 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,20 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
-
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, not, preceded, repeat_till},
+            token::none_of,
+            Parser,
+        };
+
+        // a semicolon inside of a string or a comment doesn't end the record
+        let p_part = alt((
+            p_quote_word().take(),
+            p_comment().take(),
+            preceded(not("/*"), none_of(['\'', ';'])).take(),
+        ));
+        repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 9026b725e99c4b47b84e0be5e2d5b2455f194705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 07/16] fix: verify the references relations and properties
 inherit from their base attributes

---
 ifc_rs/src/properties/material.rs                          | 1 +
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/properties/single_value.rs                      | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 11 files changed, 11 insertions(+)

diff --git a/ifc_rs/src/properties/material.rs b/ifc_rs/src/properties/material.rs
index c085a4c..eae1b2e 100644
--- a/ifc_rs/src/properties/material.rs
+++ b/ifc_rs/src/properties/material.rs
@@ -16,6 +16,7 @@ use super::extended_base::{ExtendedPropertyBase, ExtendedPropertyBuilder};
 /// https://ifc43-docs.standards.buildingsmart.org/IFC/RELEASE/IFC4x3/HTML/lexical/IfcMaterialProperties.htm
 #[derive(IfcVerify)]
 pub struct MaterialProperties {
+    #[inherited]
     base: ExtendedPropertyBase,
 
     /// Reference to the material definition to which the set of properties is assigned.
diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/properties/single_value.rs b/ifc_rs/src/properties/single_value.rs
index aaeabf1..bbb3921 100644
--- a/ifc_rs/src/properties/single_value.rs
+++ b/ifc_rs/src/properties/single_value.rs
@@ -25,6 +25,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcpropertyresource/lexical/ifcpropertysinglevalue.htm
 #[derive(IfcVerify)]
 pub struct PropertySingleValue {
+    #[inherited]
     base: PropertyBase,
 
     /// Value and measure type of this property.
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..86085d6 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..1dc8dd2 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..3430394 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From 1de34b9871fa29f19af594289e307a6f19f9714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 08/16] fix: check that references without a type restriction
 exist

---
 ifc_rs_verify_derive/src/data_type.rs | 11 -----------
 ifc_rs_verify_derive/src/field.rs     |  5 +++++
 ifc_rs_verify_derive/src/lib.rs       | 20 ++++++++------------
 3 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/ifc_rs_verify_derive/src/data_type.rs b/ifc_rs_verify_derive/src/data_type.rs
index 2794d04..c31480b 100644
--- a/ifc_rs_verify_derive/src/data_type.rs
+++ b/ifc_rs_verify_derive/src/data_type.rs
@@ -67,10 +67,6 @@ impl IdOrListType {
             _ => None,
         }
     }
-
-    pub fn needs_arguments(&self) -> bool {
-        matches!(self, Self::Id | Self::List)
-    }
 }
 
 #[derive(Debug)]
@@ -114,11 +110,4 @@ impl DataType {
             _ => None,
         }
     }
-
-    pub fn needs_arguments(&self) -> bool {
-        match self {
-            DataType::Id(id_or_list) => id_or_list.needs_arguments(),
-            DataType::OptionalParameter(id_or_list) => id_or_list.needs_arguments(),
-        }
-    }
 }
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index 3257a3c..f994e19 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -78,6 +78,11 @@ impl Field {
     }
 
     fn loop_check(&self) -> TokenStream {
+        // without a list of types, any type is fine as long as the object exists
+        if self.ifc_types.types().is_empty() {
+            return quote! { let _ = t; };
+        }
+
         let struct_name = self.struct_name.to_string();
         let var_name = self.variable_name.to_string();
 
diff --git a/ifc_rs_verify_derive/src/lib.rs b/ifc_rs_verify_derive/src/lib.rs
index aef671d..2a7b515 100644
--- a/ifc_rs_verify_derive/src/lib.rs
+++ b/ifc_rs_verify_derive/src/lib.rs
@@ -75,18 +75,14 @@ pub fn ifc_type_builder(item: TokenStream) -> TokenStream {
                         .clone();
 
                     match collected.clone() {
-                        IfcTypesTokenType::Types(types) => {
-                            DataType::new(&field.ty).and_then(|data_type| {
-                                if data_type.needs_arguments() && types.is_empty() {
-                                    None
-                                } else {
-                                    Some(FieldType::Normal(Field {
-                                        struct_name: struct_name.clone(),
-                                        variable_name,
-                                        data_type,
-                                        ifc_types: collected,
-                                    }))
-                                }
+                        IfcTypesTokenType::Types(_) => {
+                            DataType::new(&field.ty).map(|data_type| {
+                                FieldType::Normal(Field {
+                                    struct_name: struct_name.clone(),
+                                    variable_name,
+                                    data_type,
+                                    ifc_types: collected,
+                                })
                             })
                         }
                         IfcTypesTokenType::Inherited => {
-- 
2.43.0


From 6f4bdedd6c9a851e505a4fd1a2530a8f3281723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 09/16] fix: accept every building element the relations can be
 created with

---
 .../rel_contained_in_spatial_structure.rs     | 28 +++++++++++++++++--
 ifc_rs/src/relations/rel_fills_element.rs     | 11 +++++++-
 ifc_rs/src/relations/rel_voids_element.rs     | 11 +++++++-
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 86085d6..433f4e7 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -24,13 +24,37 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        Space,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
     /// contained. Any element can only be contained within one
     /// element of the project spatial structure.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        Space,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub relating_structure: Id,
 }
 
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 1dc8dd2..792b36c 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -23,7 +23,16 @@ pub struct RelFillsElement {
     relating_opening_element: TypedId<OpeningElement>,
     /// Reference to building element that occupies fully or partially the
     /// associated opening.
-    #[ifc_types(Building, OpeningElement, Slab, Wall, Window, Door)]
+    #[ifc_types(
+        Building,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_building_element: Id,
 }
 
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3430394..11a55f3 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -24,7 +24,16 @@ pub struct RelVoidsElement {
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-    #[ifc_types(Building, OpeningElement, Slab, Wall, Window)]
+    #[ifc_types(
+        Building,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub relating_building_element: Id,
     /// Reference to the feature subtraction element which defines a void in
     /// the associated element.
-- 
2.43.0


From 91378d1e0652c009f81117fc17f8ddd817785ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 10/16] fix: let true north reference directions

---
 ifc_rs/src/geometry/direction/mod.rs                 | 2 ++
 ifc_rs/src/geometry/representation_context/mod.rs    | 4 ++--
 ifc_rs/src/geometry/representation_subcontext/mod.rs | 2 +-
 ifc_rs/src/traits/sub_types.rs                       | 2 ++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/geometry/direction/mod.rs b/ifc_rs/src/geometry/direction/mod.rs
index 1aa39ed..f58b6b8 100644
--- a/ifc_rs/src/geometry/direction/mod.rs
+++ b/ifc_rs/src/geometry/direction/mod.rs
@@ -26,6 +26,7 @@ impl From<DVec2> for Direction2D {
 }
 
 impl IfcType for Direction2D {}
+impl Direction for Direction2D {}
 
 /// The IfcDirection provides a direction in two or three dimensional space depending on the number
 /// of DirectionRatio's provided. The IfcDirection does not imply a vector length, and the
@@ -45,3 +46,4 @@ impl From<DVec3> for Direction3D {
 }
 
 impl IfcType for Direction3D {}
+impl Direction for Direction3D {}
diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..5470660 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north<D: Direction>(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/geometry/representation_subcontext/mod.rs b/ifc_rs/src/geometry/representation_subcontext/mod.rs
index 095b0ae..9dd69cf 100644
--- a/ifc_rs/src/geometry/representation_subcontext/mod.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/mod.rs
@@ -73,7 +73,7 @@ pub struct GeometricRepresentationSubContext {
     /// positive Y axis of the project coordinate system equals the geographic northing direction.
     ///
     /// NOTE  If a geographic placement is provided using IfcMapConversion then the true north is for information only. In case of inconsistency, the value provided with IfcMapConversion shall take precedence.
-    #[ifc_types(Axis2D, Axis3D)]
+    #[ifc_types(Direction2D, Direction3D)]
     pub true_north: OptionalParameter<Id>,
 
     /// Parent context from which the sub context derives its world coordinate
diff --git a/ifc_rs/src/traits/sub_types.rs b/ifc_rs/src/traits/sub_types.rs
index cbdb5ef..555f214 100644
--- a/ifc_rs/src/traits/sub_types.rs
+++ b/ifc_rs/src/traits/sub_types.rs
@@ -4,6 +4,8 @@ pub trait Transform3D: IfcType {}
 
 pub trait AxisPlacement: IfcType {}
 
+pub trait Direction: IfcType {}
+
 pub trait Curve: IfcType {}
 
 pub trait CartesianPoint: IfcType {}
-- 
2.43.0


From cfd972f874c1e332b06ca0eca175db888548d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 11/16] fix: relate spaces to their space type

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..19fbd81 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -286,6 +286,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // rel aggregates ----------------------
         let rel_agg = RelAggregates::new(
             "StoreySpacesLink",
-- 
2.43.0


From 78dd7af4d106beba8e106df9fab64deac5d157ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 12/16] fix: don't load identifiers which exceed 128 bits as a
 different identifier

---
 ifc_rs/src/id/ifc_uuid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ifc_rs/src/id/ifc_uuid.rs b/ifc_rs/src/id/ifc_uuid.rs
index 8bbc6ef..b2fe6c6 100644
--- a/ifc_rs/src/id/ifc_uuid.rs
+++ b/ifc_rs/src/id/ifc_uuid.rs
@@ -80,6 +80,8 @@ impl IFCParse for IfcGloballyUniqueId {
         winnow::combinator::delimited(
             "'",
             take_while(22..=22, |c: char| ALPHABET.contains(c))
+                // 128 bits only leave two bits for the first character
+                .verify(|x: &str| x.starts_with(['0', '1', '2', '3']))
                 .map(|x: &str| {
                     x.chars()
                         .filter_map(|c| ALPHABET.find(c))
-- 
2.43.0


From f472ea25d591378cbcdbc5ad44294d2fb7f233ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 13/16] fix: don't write NaN for walls extruded along the
 vertical axis

---
 ifc_rs/src/ifc_builder/walls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/walls.rs b/ifc_rs/src/ifc_builder/walls.rs
index f56067b..ff3b156 100644
--- a/ifc_rs/src/ifc_builder/walls.rs
+++ b/ifc_rs/src/ifc_builder/walls.rs
@@ -222,7 +222,11 @@ impl<'a> IfcStoreyBuilder<'a> {
     ) -> IfcWallBuilder<'a, 'b> {
         let wall_thickness = self.calculate_material_layer_set_thickness(material);
 
-        let curve_axis_dir = wall_information.direction.cross(DVec3::Z).normalize();
+        // fall back to the axis of vertical walls if the wall is extruded along Z
+        let curve_axis_dir = wall_information
+            .direction
+            .cross(DVec3::Z)
+            .normalize_or(DVec3::X);
         let curve_axis_representation = ShapeRepresentation::new(
             self.sub_context,
             RepresentationIdentifier::Axis,
-- 
2.43.0


From f55b42a72dea66827c4921118bb685cc6bab6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 14/16] fix: don't split strings at doubled apostrophes

---
 ifc_rs/src/parser/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 0b2a2bc..43d4633 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -1,5 +1,6 @@
 use std::fmt::Display;
 
+use winnow::combinator::{not, terminated};
 use winnow::Parser;
 
 use crate::parser::{p_quote_word, IFCParse, IFCParser};
@@ -55,7 +56,9 @@ impl IFCParse for StringPrimitive {
     where
         Self: Sized,
     {
-        p_quote_word().map(Self::from)
+        // a doubled apostrophe doesn't end the string, reading only the part in front of it would
+        // split or cut the value
+        terminated(p_quote_word(), not("'")).map(Self::from)
     }
 }
 
-- 
2.43.0


From 50d983ad934bffd83425f8655b8f6895f1db1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 15/16] fix: read integers and ids with leading zeros as one
 number

dec_int and dec_uint stop after a leading zero. Lists accept items without a
comma in between, so (007,1) was read as (0,0,7,1), and a file with ids like
#012 couldn't be loaded.
---
 ifc_rs/src/id/plain.rs                    |  5 +++--
 ifc_rs/src/parser/integer.rs              |  5 ++---
 ifc_rs/src/parser/mod.rs                  |  8 ++++++++
 ifc_rs/src/parser/timestamp.rs            |  5 ++---
 ifc_rs/src/units/dimensional_exponents.rs | 17 ++++++++---------
 5 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/ifc_rs/src/id/plain.rs b/ifc_rs/src/id/plain.rs
index ca251d9..246b18a 100644
--- a/ifc_rs/src/id/plain.rs
+++ b/ifc_rs/src/id/plain.rs
@@ -1,6 +1,6 @@
 use std::fmt::Display;
 
-use winnow::{ascii::dec_uint, combinator::preceded, Parser};
+use winnow::{ascii::digit1, combinator::preceded, Parser};
 
 use crate::{
     parser::{IFCParse, IFCParser},
@@ -18,7 +18,8 @@ impl IFCParse for Id {
     where
         Self: Sized,
     {
-        preceded("#", dec_uint).map(Self)
+        // unlike `dec_uint` this accepts leading zeros
+        preceded("#", digit1.verify_map(|id: &str| id.parse().ok())).map(Self)
     }
 }
 
diff --git a/ifc_rs/src/parser/integer.rs b/ifc_rs/src/parser/integer.rs
index 9269bdf..cbb4916 100644
--- a/ifc_rs/src/parser/integer.rs
+++ b/ifc_rs/src/parser/integer.rs
@@ -1,9 +1,8 @@
 use std::fmt::Display;
 
-use winnow::ascii::dec_int;
 use winnow::Parser;
 
-use crate::parser::{IFCParse, IFCParser};
+use crate::parser::{p_integer, IFCParse, IFCParser};
 
 #[derive(Debug, Clone, PartialEq, PartialOrd)]
 pub struct IntegerPrimitive(pub i64);
@@ -13,7 +12,7 @@ impl IFCParse for IntegerPrimitive {
     where
         Self: Sized,
     {
-        dec_int.map(Self)
+        p_integer().map(Self)
     }
 }
 
diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..1cac60f 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -11,6 +11,7 @@ pub(crate) mod string;
 pub(crate) mod timestamp;
 
 use std::fmt::Display;
+use std::str::FromStr;
 
 use optional::OptionalParameter;
 use winnow::ascii::*;
@@ -55,6 +56,13 @@ pub(crate) fn p_word_until<'a>(end: char) -> impl IFCParser<'a, String> {
     take_while(.., move |c: char| c != end).map(|x: &str| x.to_owned())
 }
 
+/// Integers may start with any number of zeros, which [`dec_int`] doesn't accept
+pub(crate) fn p_integer<'a, T: FromStr>() -> impl IFCParser<'a, T> {
+    (opt(one_of(['+', '-'])), digit1)
+        .take()
+        .verify_map(|x: &str| x.parse().ok())
+}
+
 pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
     delimited("'", p_word_until('\''), "'")
 }
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index c2a6c67..f1139e4 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -1,10 +1,9 @@
 use std::fmt::Display;
 
 use chrono::Utc;
-use winnow::ascii::dec_int;
 use winnow::Parser;
 
-use crate::parser::{IFCParse, IFCParser};
+use crate::parser::{p_integer, IFCParse, IFCParser};
 
 /// An indication of date and time by measuring the number of seconds which
 /// have elapsed since the beginning of the year 1970.
@@ -24,7 +23,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
+        p_integer().verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
diff --git a/ifc_rs/src/units/dimensional_exponents.rs b/ifc_rs/src/units/dimensional_exponents.rs
index b554f3c..da559b6 100644
--- a/ifc_rs/src/units/dimensional_exponents.rs
+++ b/ifc_rs/src/units/dimensional_exponents.rs
@@ -1,11 +1,10 @@
 use std::fmt::Display;
 
 use ifc_rs_verify_derive::IfcVerify;
-use winnow::ascii::dec_int;
 
 use crate::{
     prelude::*,
-    units::{comma::Comma, p_space_or_comment_surrounded},
+    units::{comma::Comma, p_integer, p_space_or_comment_surrounded},
 };
 
 use super::IFCParse;
@@ -72,19 +71,19 @@ impl IFCParse for DimensionalExponents {
         winnow::seq! {
             DimensionalExponents {
                 _: p_space_or_comment_surrounded("IFCDIMENSIONALEXPONENTS("),
-                length: dec_int,
+                length: p_integer(),
                 _: Comma::parse(),
-                mass: dec_int,
+                mass: p_integer(),
                 _: Comma::parse(),
-                time: dec_int,
+                time: p_integer(),
                 _: Comma::parse(),
-                electric_current: dec_int,
+                electric_current: p_integer(),
                 _: Comma::parse(),
-                thermodynamic_temperature: dec_int,
+                thermodynamic_temperature: p_integer(),
                 _: Comma::parse(),
-                amount_of_substance: dec_int,
+                amount_of_substance: p_integer(),
                 _: Comma::parse(),
-                luminouse_intensity: dec_int,
+                luminouse_intensity: p_integer(),
                 _: p_space_or_comment_surrounded(");"),
             }
         }
-- 
2.43.0


From 2ca74a5d090b2f01933c4d902f42b276f309ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 16/16] fix: spell unit types, unit names and roles as the
 standard does

ELECTRIC...UNIT, COULOMB and COMMISSIONINGENGINEER were misspelled: written
files contained values which don't exist, and records with the standard's
values weren't recognized.
---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/unit_enum.rs        | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0

