From f3efd81a24cbdc0f438e88d009926826c845b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 01/17] fix: keep text which consists only of whitespace

xml-rs reports such a run of character data as XmlEvent::Whitespace, which
the reader dropped: <a> </a> deserialized to an empty string, and white space
between two CDATA sections was lost.
---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..1284db7 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace` (a run of characters that are all whitespace).
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From b8418531841f9ae9085f464c32b61d3bea9c083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 02/17] fix: stay in sync when a visitor discards an error from
 a descendant

return_to_depth called next() with descendants which had ended (but not been
trimmed) still on the stack, tripping its debug assertion or attributing
later elements to the wrong stack position.
---
 static-xml/src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 1284db7..aa85e2a 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -473,11 +473,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+        // If a visitor discarded an error from a descendant, that may have already
+        // ended but still be on the stack.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
         }
-        self.stack.truncate(self.depth);
         Ok(())
     }
 
-- 
2.43.0


From 0d7d22d3b841757a91f96aa77a0c598d42d4994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 03/17] fix: flattened enum passes on child elements it doesn't
 recognize

Once a variant had been found, the generated visitor swallowed every unknown
element, so flattened fields declared later never saw their elements.
---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From 7b67623043e650ab5142fc150068a2e29bd4f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 04/17] fix: enums with skipped variants

Deriving Deserialize produced a non-exhaustive match, and the derived
Serialize silently wrote nothing rather than produce the documented error.
---
 static-xml-derive/src/deserialize.rs | 9 +++++++--
 static-xml-derive/src/serialize.rs   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..4a77bc9 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
@@ -415,7 +420,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    let expected_i = match unsafe { self.out.assume_init_mut() } {
+                    let expected_i: usize = match unsafe { self.out.assume_init_mut() } {
                         #(#initialized_match_arms,)*
                     };
                     if let Some(element_i) = element_i {
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..3b35283 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From bf8ee2f879ad7cf73e6fa2a1d20507781f7f3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 05/17] fix: don't include r# in names taken from raw
 identifiers

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..a4e8e1a 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From 9401c8bc60bdccd6eeae0de53d36c3f883d22c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 06/17] fix: allow flattening a struct which derives
 Deserialize

The documentation promises this, but only enums implemented RawDeserialize.
---
 static-xml-derive/src/deserialize.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 4a77bc9..22e38d5 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -263,6 +263,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     } else {
         TokenStream::new()
     };
+
+    // The visibilities must match, as described in `do_enum`.
+    let vis = &struct_.input.vis;
+
     quote! {
         const ATTRIBUTES: &[::static_xml::ExpandedNameRef] = &[#(#attributes,)*];
         const ELEMENTS: &[::static_xml::ExpandedNameRef] = &[#(#elements,)*];
@@ -271,7 +275,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
         #[allow(non_snake_case)]
-        struct #visitor_type<'out> {
+        #vis struct #visitor_type<'out> {
             // This can't be &mut MaybeUninit<#type> because flattened fields
             // (if any) get a &mut MaybeUninit<#type> that aliases it. So
             // use a raw pointer and addr_of! to access individual fields, and
@@ -329,6 +333,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
+            type Visitor = #visitor_type<'out>;
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
-- 
2.43.0


From db6e087829fdd375aafed32854c949087e36afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 07/17] fix: don't leak already-deserialized fields on error

The generated visitors write fields into a MaybeUninit, and nothing dropped
those when a later attribute, child, or missing field caused an error.
---
 static-xml-derive/src/deserialize.rs | 48 ++++++++++++++++++++++++++--
 static-xml/src/de/mod.rs             |  8 +++--
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 22e38d5..cd7d18a 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -110,6 +110,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
@@ -126,6 +127,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
@@ -137,7 +139,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     quote! { None }
                 };
                 quote_spanned! {span=>
-                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(&mut self.#field_visitor, #d)?;
                 }
             }
             ElementFieldMode::Text => todo!("text fields unimplemented"),
@@ -145,6 +147,29 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     }).collect()
 }
 
+/// Drops the fields which have been initialized, other than flattened ones. (Their own visitors
+/// do that.)
+fn drop_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
+    let fields = struct_.fields.iter().filter(|field| {
+        matches!(
+            field.mode,
+            ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. }
+        )
+    });
+    fields
+        .map(|field| {
+            let field_present = format_ident!("{}_present", field.ident);
+            let field_mut = field_mut(field);
+            quote! {
+                if self.#field_present {
+                    // SAFETY: the field is initialized when field_present is true.
+                    unsafe { ::std::ptr::drop_in_place(#field_mut) };
+                }
+            }
+        })
+        .collect()
+}
+
 fn attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
         .sorted_attributes
@@ -234,6 +259,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
+    let drop_visitor_fields = drop_visitor_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
@@ -321,7 +347,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            fn finalize(&mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
@@ -333,6 +359,12 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                #(#drop_visitor_fields)*
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
@@ -459,12 +491,13 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
 
             fn finalize(
-                self,
+                &mut self,
                 default: Option<fn() -> Self::Out>,
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
                     if let Some(d) = default {
                         self.out.write(d());
+                        self.initialized = true;
                     } else {
                         return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
                     }
@@ -474,6 +507,15 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) };
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index aa85e2a..ad107fe 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -718,8 +718,9 @@ pub unsafe trait RawDeserializeVisitor<'out>: Sized + ElementVisitor {
 
     /// Finalizes `out`.
     ///
-    /// An `Ok` return guarantees `out.assume_init()` is valid.
-    fn finalize(self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
+    /// An `Ok` return guarantees `out.assume_init()` is valid. The caller must then
+    /// `std::mem::forget` this visitor, which otherwise drops what it has initialized.
+    fn finalize(&mut self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
 }
 
 /// Raw, unsafe implementation of [`Deserialize`], for use by the macros.
@@ -751,7 +752,8 @@ macro_rules! impl_deserialize_via_raw {
                 let mut visitor =
                     <$visitor as ::static_xml::de::RawDeserializeVisitor>::new(&mut out);
                 element.read_to(&mut visitor)?;
-                ::static_xml::de::RawDeserializeVisitor::finalize(visitor, None)?;
+                ::static_xml::de::RawDeserializeVisitor::finalize(&mut visitor, None)?;
+                ::std::mem::forget(visitor); // as finalize's contract requires.
                 // SAFETY: finalize's contract guarantees assume_init is safe.
                 Ok(unsafe { out.assume_init() })
             }
-- 
2.43.0


From df331012f34547128542e3f464d2b3dafedeba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 08/17] fix: support text fields in derived structs

Deserialize panicked within the macro on the documented
#[static_xml(text)], and Serialize silently omitted the field.
---
 static-xml-derive/src/common.rs      |  7 ++++++
 static-xml-derive/src/deserialize.rs | 35 +++++++++++++++++++++-------
 static-xml-derive/src/serialize.rs   |  9 ++++++-
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index a4e8e1a..14c4cda 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -580,6 +580,13 @@ impl<'a> ElementField<'a> {
             }
             ElementFieldMode::Flatten
         } else if !attribute && !flatten && text {
+            if default {
+                errors.push(syn::Error::new_spanned(
+                    inner,
+                    "default and text are mutually exclusive",
+                ));
+                return Err(());
+            }
             ElementFieldMode::Text
         } else {
             errors.push(syn::Error::new_spanned(
diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index cd7d18a..a39449e 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -39,10 +39,12 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
             match field.mode {
-                ElementFieldMode::Text => None,
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
                     #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
                 }),
+                ElementFieldMode::Text => Some(quote_spanned! {span=>
+                    #field_present: bool, _text_buf: String
+                }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
                         #field_present: bool
@@ -76,6 +78,12 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                         )
                     }
                 }
+                ElementFieldMode::Text => {
+                    let field_present = format_ident!("{}_present", field.ident);
+                    quote_spanned! {span=>
+                        #field_present: false, _text_buf: String::new()
+                    }
+                }
                 _ => {
                     let field_present = format_ident!("{}_present", field.ident);
                     quote_spanned! {span=>
@@ -142,7 +150,18 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(&mut self.#field_visitor, #d)?;
                 }
             }
-            ElementFieldMode::Text => todo!("text fields unimplemented"),
+            ElementFieldMode::Text => {
+                let field_present = format_ident!("{}_present", field.ident);
+                let field_mut = field_mut(field);
+                quote_spanned! {span=>
+                    let value = <#ty as ::static_xml::de::ParseText>::parse(
+                        ::std::mem::take(&mut self._text_buf),
+                    ).map_err(::static_xml::de::VisitorError::Wrap)?;
+                    // SAFETY: #field_mut is a valid pointer to uninitialized memory.
+                    unsafe { ::std::ptr::write(#field_mut, value) };
+                    self.#field_present = true;
+                }
+            }
         }
     }).collect()
 }
@@ -150,12 +169,10 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
 /// Drops the fields which have been initialized, other than flattened ones. (Their own visitors
 /// do that.)
 fn drop_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
-    let fields = struct_.fields.iter().filter(|field| {
-        matches!(
-            field.mode,
-            ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. }
-        )
-    });
+    let fields = struct_
+        .fields
+        .iter()
+        .filter(|field| !matches!(field.mode, ElementFieldMode::Flatten));
     fields
         .map(|field| {
             let field_present = format_ident!("{}_present", field.ident);
@@ -275,7 +292,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     }
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
                 Ok(None)
             }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3b35283..2bc15ff 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -48,6 +48,13 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
 }
 
 fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
+    let text = struct_.text_field_pos.map(|p| {
+        let ident = &struct_.fields[p].inner.ident;
+        quote_spanned! {
+            ident.span() =>
+            writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
+        }
+    });
     let elements = struct_.fields.iter().filter_map(|f| {
         if !matches!(f.mode, ElementFieldMode::Element { .. }) {
             return None;
@@ -69,7 +76,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
-    elements.chain(flattens).collect()
+    text.into_iter().chain(elements).chain(flattens).collect()
 }
 
 fn impl_root(name: &Name) -> TokenStream {
-- 
2.43.0


From bc36b0c7f760ee9ca54739dd8ac0f1bbd5bb4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 09/17] fix: flush the sink before reporting success

With a buffering writer, to() could return Ok although writing the buffered
document failed.
---
 static-xml/src/ser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..11c070f 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -711,9 +711,11 @@ impl<'a> Serializer<'a> {
             writer: &mut writer,
         }));
         self.element.write_attributes(&mut builder)?;
-        let mut writer = builder.start()?;
-        self.element.write_children(&mut writer)?;
-        writer.finish()
+        let mut root = builder.start()?;
+        self.element.write_children(&mut root)?;
+        root.finish()?;
+        let sink = writer.inner.inner_mut();
+        sink.flush().map_err(|e| Error(e.to_string()))
     }
 
     /// Serializes to a `String`.
-- 
2.43.0


From b68ffacf05911a3e28505eea991991c39ec1fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 10/17] fix: declare namespaces completely when serializing

xml-rs omits a declaration when any ancestor has the same one, even if another
in between hid it, and doesn't escape URLs. And nothing undeclared a default
namespace which an element needing a prefix had dropped. The results were
malformed or had names in the wrong namespace.
---
 static-xml/src/ser/mod.rs | 49 ++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 11c070f..7374de3 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -108,6 +108,9 @@ struct ElementBuilderInner<'a> {
     name: ExpandedNameRef<'a>,
     namespaces: NamespacesBuilder<'a>,
 
+    /// The mappings in scope for the parent.
+    inherited: Option<&'a xml::namespace::Namespace>,
+
     /// Attributes, keyed by the expanded name as that's what must be unique.
     /// The prefix is part of the BTreeMap's value, even though XML considers
     /// it part of the key.
@@ -161,6 +164,10 @@ impl<'a> ElementBuilder<'a> {
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
         let namespaces = inner.namespaces.finalize();
+
+        // Namespace declarations are passed as attributes because xml-rs neither
+        // escapes URLs nor repeats a mapping which was hidden by another one.
+        let declarations = namespaces.declarations(inner.inherited);
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -168,17 +175,18 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
-                        .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: &v,
-                        })
+                    declarations
+                        .into_iter()
+                        .chain(inner.attributes.iter().map(|(k, v)| {
+                            xml::attribute::Attribute {
+                                name: namespaces.resolve_attribute(k),
+                                value: &v,
+                            }
+                        }))
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -220,6 +228,7 @@ impl<'a> ElementWriter<'a> {
         ElementBuilder(Some(ElementBuilderInner {
             name,
             namespaces: inner.namespaces.child(name.namespace),
+            inherited: Some(&inner.namespaces.by_prefix),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: inner.writer,
@@ -382,6 +391,29 @@ impl<'a> Namespaces<'a> {
         child
     }
 
+    /// Returns the declarations needed to go from the `inherited` mappings to these.
+    fn declarations(
+        &self,
+        inherited: Option<&xml::namespace::Namespace>,
+    ) -> Vec<xml::attribute::Attribute> {
+        let inherited_url = |prefix| inherited.and_then(|i| i.get(prefix));
+        let mut out = Vec::new();
+        if inherited_url("").is_some() && self.by_prefix.get("").is_none() {
+            let name = xml::name::Name::local("xmlns");
+            out.push(xml::attribute::Attribute { name, value: "" });
+        }
+        for (prefix, value) in &self.by_prefix {
+            if inherited_url(prefix) != Some(value) {
+                let name = match prefix {
+                    "" => xml::name::Name::local("xmlns"),
+                    _ => xml::name::Name::prefixed(prefix, "xmlns"),
+                };
+                out.push(xml::attribute::Attribute { name, value });
+            }
+        }
+        out
+    }
+
     fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
     where
         'a: 'b,
@@ -706,6 +738,7 @@ impl<'a> Serializer<'a> {
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
             namespaces: NamespacesBuilder::default(),
+            inherited: None,
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: &mut writer,
-- 
2.43.0


From 4b289140f627cd7bab5426fd09e109b23f06e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 11/17] fix: serialize elements without a namespace where a
 default namespace is set

This panicked (todo!). Now such an element undeclares the default namespace.
---
 static-xml/src/ser/mod.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 7374de3..0f8b4f0 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -163,7 +163,7 @@ impl<'a> ElementBuilder<'a> {
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        let namespaces = inner.namespaces.finalize(&inner.name);
 
         // Namespace declarations are passed as attributes because xml-rs neither
         // escapes URLs nor repeats a mapping which was hidden by another one.
@@ -282,6 +282,9 @@ impl<'a> NamespacesBuilder<'a> {
             "prefix {:?} must not start with xml",
             requested_prefix
         );
+        if url.is_empty() {
+            return; // "no namespace" needs no mapping.
+        }
         use std::collections::btree_map::Entry;
         match self.0.entry(url) {
             Entry::Vacant(e) => {
@@ -313,8 +316,11 @@ impl<'a> NamespacesBuilder<'a> {
     }
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    ///
+    /// An `element` with no namespace can't have any mapping for the empty prefix.
+    fn finalize(mut self, element: &ExpandedNameRef) -> Namespaces<'a> {
         let mut by_prefix = xml::namespace::Namespace::empty();
+        let no_default = element.namespace.is_empty();
 
         // Give first dibs to required mappings, and ensure they get some
         // assignment even if their requested prefix is taken (or unsuitable,
@@ -325,7 +331,7 @@ impl<'a> NamespacesBuilder<'a> {
                 continue;
             }
 
-            if !(ns.needs_prefix && ns.requested_prefix.is_empty())
+            if !((ns.needs_prefix || no_default) && ns.requested_prefix.is_empty())
                 && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
             {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
@@ -348,7 +354,9 @@ impl<'a> NamespacesBuilder<'a> {
                 continue; // already processed.
             }
 
-            if by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned()) {
+            if !(no_default && ns.requested_prefix.is_empty())
+                && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
+            {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
             }
         }
@@ -425,16 +433,7 @@ impl<'a> Namespaces<'a> {
                 ..
             }) => p,
             None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-            _ if name.namespace.is_empty() => {
-                if self.by_prefix.get("").is_none() {
-                    ""
-                } else {
-                    todo!(
-                        "element {} has no namespace, but default namespace is set",
-                        name
-                    )
-                }
-            }
+            _ if name.namespace.is_empty() => "",
             _ => panic!("element {} uses undeclared namespace", name),
         };
         xml::name::Name {
-- 
2.43.0


From 3a99d1bad699f61b44c6befda0e5eb65c61b3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 12/17] fix: escape everything XML parsers would otherwise
 alter or reject

xml-rs leaves ']]>' (malformed) and CR (normalized to LF) alone in text, and
TAB (normalized to a space) in attributes. And it writes characters XML can't
represent, such as NUL, producing a malformed document; that's now an error.
---
 static-xml/src/ser/mod.rs | 74 ++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 0f8b4f0..972cb99 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -62,6 +62,30 @@ impl std::fmt::Display for Error {
     }
 }
 
+/// Escapes a character node or attribute value, such that any XML parser will return it unchanged.
+///
+/// Fails if that's impossible because XML can't represent some character.
+fn escape(text: &str, in_attribute: bool) -> Result<String, Error> {
+    let mut out = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '<' => out.push_str("&lt;"),
+            '>' => out.push_str("&gt;"),
+            '&' => out.push_str("&amp;"),
+            '\r' => out.push_str("&#xD;"),
+            '"' if in_attribute => out.push_str("&quot;"),
+            '\'' if in_attribute => out.push_str("&apos;"),
+            '\n' if in_attribute => out.push_str("&#xA;"),
+            '\t' if in_attribute => out.push_str("&#x9;"),
+            '\t' | '\n' | '\x20'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'.. => {
+                out.push(c)
+            }
+            _ => return Err(Error(format!("XML can't represent character {:?}", c))),
+        }
+    }
+    Ok(out)
+}
+
 struct WrappedWriter<W: std::io::Write> {
     inner: xml::writer::EventWriter<W>,
 
@@ -114,6 +138,7 @@ struct ElementBuilderInner<'a> {
     /// Attributes, keyed by the expanded name as that's what must be unique.
     /// The prefix is part of the BTreeMap's value, even though XML considers
     /// it part of the key.
+    /// Values are already escaped.
     attributes: Vec<(ExpandedNameRef<'a>, String)>,
     seen_attributes: HashMap<ExpandedNameRef<'a>, ()>,
     writer: &'a mut dyn ErasedEventWriter,
@@ -138,11 +163,12 @@ impl<'a> ElementBuilder<'a> {
         value: String,
     ) -> Result<(), Error> {
         let inner = self.0.as_mut().unwrap();
+        let escaped = escape(&value, true)?;
         use std::collections::hash_map::Entry;
         match inner.seen_attributes.entry(name) {
             Entry::Vacant(e) => {
                 e.insert(());
-                inner.attributes.push((name, value));
+                inner.attributes.push((name, escaped));
             }
             Entry::Occupied(_) => {
                 // This would be more efficient with indexmap or by seen_attributes values holding
@@ -176,13 +202,20 @@ impl<'a> ElementBuilder<'a> {
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
                     declarations
-                        .into_iter()
-                        .chain(inner.attributes.iter().map(|(k, v)| {
-                            xml::attribute::Attribute {
-                                name: namespaces.resolve_attribute(k),
-                                value: &v,
-                            }
-                        }))
+                        .iter()
+                        .map(|(name, url)| xml::attribute::Attribute {
+                            name: *name,
+                            value: url,
+                        })
+                        .chain(
+                            inner
+                                .attributes
+                                .iter()
+                                .map(|(k, v)| xml::attribute::Attribute {
+                                    name: namespaces.resolve_attribute(k),
+                                    value: &v,
+                                }),
+                        )
                         .collect::<Vec<_>>(),
                 ),
 
@@ -236,11 +269,12 @@ impl<'a> ElementWriter<'a> {
     }
 
     pub fn text(&mut self, text: &str) -> Result<(), Error> {
-        self.0
-            .as_mut()
-            .unwrap()
-            .writer
-            .write(XmlEvent::Characters(text))
+        let writer = &mut self.0.as_mut().unwrap().writer;
+        let escaped = escape(text, false).map_err(|e| {
+            writer.poison(e.clone());
+            e
+        })?;
+        writer.write(XmlEvent::Characters(&escaped))
     }
 
     pub fn finish(mut self) -> Result<(), Error> {
@@ -399,24 +433,23 @@ impl<'a> Namespaces<'a> {
         child
     }
 
-    /// Returns the declarations needed to go from the `inherited` mappings to these.
+    /// Returns the (escaped) declarations needed to go from the `inherited` mappings to these.
     fn declarations(
         &self,
         inherited: Option<&xml::namespace::Namespace>,
-    ) -> Vec<xml::attribute::Attribute> {
+    ) -> Vec<(xml::name::Name, Cow<str>)> {
         let inherited_url = |prefix| inherited.and_then(|i| i.get(prefix));
         let mut out = Vec::new();
         if inherited_url("").is_some() && self.by_prefix.get("").is_none() {
-            let name = xml::name::Name::local("xmlns");
-            out.push(xml::attribute::Attribute { name, value: "" });
+            out.push((xml::name::Name::local("xmlns"), Cow::Borrowed("")));
         }
-        for (prefix, value) in &self.by_prefix {
-            if inherited_url(prefix) != Some(value) {
+        for (prefix, url) in &self.by_prefix {
+            if inherited_url(prefix) != Some(url) {
                 let name = match prefix {
                     "" => xml::name::Name::local("xmlns"),
                     _ => xml::name::Name::prefixed(prefix, "xmlns"),
                 };
-                out.push(xml::attribute::Attribute { name, value });
+                out.push((name, xml::escape::escape_str_attribute(url)));
             }
         }
         out
@@ -729,6 +762,7 @@ impl<'a> Serializer<'a> {
                 xml::writer::EmitterConfig {
                     perform_indent: self.perform_indent,
                     write_document_declaration: self.write_document_declaration,
+                    perform_escaping: false, // see `escape`.
                     ..Default::default()
                 },
             ),
-- 
2.43.0


From 8958144647f9f818d7ac2c7fc5211eb9b94dd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 13/17] fix: accept a processing instruction before the root
 element

Without an XML declaration, xml-rs reports this before StartDocument.
---
 static-xml/src/de/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index ad107fe..de16df7 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -305,14 +305,18 @@ impl<R: std::io::Read> Reader<R> {
     ///
     /// Call only once.
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
-        match self.inner.next().map_err(|e| Error::xml(&[], e))? {
-            XmlEvent::StartDocument { .. } => {}
-            o => {
-                return Err(Error::msg(
-                    &[],
-                    self.inner.position(),
-                    format!("expected StartDocument, got {:#?}", o),
-                ))
+        loop {
+            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+                XmlEvent::StartDocument { .. } => break,
+                // With no XML declaration, these can come first.
+                XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
+                o => {
+                    return Err(Error::msg(
+                        &[],
+                        self.inner.position(),
+                        format!("expected StartDocument, got {:#?}", o),
+                    ))
+                }
             }
         }
         match self.next()? {
-- 
2.43.0


From 28e324693121739ef3d9539996f240d87994ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 14/17] fix: don't report success after an attribute was
 rejected

---
 static-xml/src/ser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 972cb99..a34d6ff 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -163,7 +163,10 @@ impl<'a> ElementBuilder<'a> {
         value: String,
     ) -> Result<(), Error> {
         let inner = self.0.as_mut().unwrap();
-        let escaped = escape(&value, true)?;
+        let escaped = escape(&value, true).map_err(|e| {
+            inner.writer.poison(e.clone());
+            e
+        })?;
         use std::collections::hash_map::Entry;
         match inner.seen_attributes.entry(name) {
             Entry::Vacant(e) => {
@@ -174,7 +177,9 @@ impl<'a> ElementBuilder<'a> {
                 // This would be more efficient with indexmap or by seen_attributes values holding
                 // attributes indexes, but it's hardly a hot path anyway.
                 let old = inner.attributes.iter().find(|(n, _)| *n == name).unwrap();
-                return Err(Error::duplicate_attribute(&name, &old.1, &value));
+                let e = Error::duplicate_attribute(&name, &old.1, &value);
+                inner.writer.poison(e.clone());
+                return Err(e);
             }
         }
         inner.namespaces.attribute(name.namespace);
-- 
2.43.0


From f59f776ac65c40b42f5745bc408c8332029c6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 15/17] fix: accept -0 for unsigned integers

---
 static-xml/src/de/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index de16df7..a648d14 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -1048,6 +1048,12 @@ macro_rules! text_for_num {
         impl ParseText for $t {
             fn parse(text: String) -> Result<Self, crate::BoxedStdError> {
                 let text = text.trim_matches(&['\x09', '\x0A', '\x0D', '\x20'][..]);
+
+                // -0 is valid even for unsigned types, but Rust doesn't accept it.
+                let text = match text.strip_prefix('-') {
+                    Some(z) if $t::MIN == 0 as $t && z.starts_with('0') && z.bytes().all(|b| b == b'0') => z,
+                    _ => text,
+                };
                 <$t as std::str::FromStr>::from_str(text).map_err(|e| Box::new(e).into())
             }
         }
-- 
2.43.0


From 7a4f98d996f3a68a9cb42043e19d87c026382ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 16/17] fix: report unknown options after skip on an enum
 variant

---
 static-xml-derive/src/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 14c4cda..2e50c51 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -629,6 +629,7 @@ impl<'a> ElementEnum<'a> {
             .iter()
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
+                let mut skip = false;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
@@ -641,13 +642,14 @@ impl<'a> ElementEnum<'a> {
                         {
                             attr.namespaces.process_prefix(errors, nv, &mut name);
                         }
-                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => {
-                            has_skipped_variants = true;
-                            return None;
-                        }
+                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => skip = true,
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                if skip {
+                    has_skipped_variants = true;
+                    return None;
+                }
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
                     .map(|f| &f.ty);
-- 
2.43.0


From 07b509d98687b27ee7883ac00e2a477b95662f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 17/17] fix: let a restriction enum without variants derive
 ToText

---
 static-xml-derive/src/to_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index b2a5bad..1eb00c3 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -30,7 +30,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                match self {
+                match *self {
                     #(#match_arms, )*
                 }
             }
@@ -48,7 +48,7 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
                     quote_spanned! { vident.span() => Self::#vident => #text }
                 },
                 TextVariantMode::Unknown => {
-                    quote_spanned! { vident.span() => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
+                    quote_spanned! { vident.span() => Self::#vident(ref text) => ::std::convert::AsRef::<str>::as_ref(text) }
                 },
             }
         })
@@ -58,9 +58,10 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(match self {
+                let text: &str = match *self {
                     #(#match_arms, )*
-                }.to_owned())
+                };
+                Ok(text.to_owned())
             }
         }
     }
-- 
2.43.0

