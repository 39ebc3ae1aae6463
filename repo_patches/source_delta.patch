From 381b75b09a4e4869132a9eb101d0d75eb3a029ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 01/16] fix: text::Tag counts its literal in characters, not
 bytes

Tag took TAG.len() (bytes) characters from the input, so a tag holding any
multi-byte character never matched.
---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From 17a72e4ef314355f2f20d625658586fa1e237472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 02/16] fix: WhileNot1::peek stops at the end of input

The loop only ended on a character of the set, so it spun for ever once the
input was exhausted; it also consumed a rejected first character and reported
success on empty input, unlike parse.
---
 nommy/src/text/many.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..df3e5fc 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,18 +87,14 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
-        }
-        loop {
-            let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
+        let mut found = false;
+        while !OneOf::<CHARS>::peek(&mut input.cursor()) {
+            if input.next().is_none() {
                 break;
             }
-            let pos = cursor.position();
-            input.fast_forward(pos);
+            found = true;
         }
-        true
+        found
     }
 }
 
-- 
2.43.0


From f0e18edf7f9a46a50bc6dc4af3a4130c329fff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 03/16] fix: array parsing no longer drops uninitialised
 elements

Assigning through as_mut_ptr() drops the previous, uninitialised element
before storing the parsed one.
---
 nommy/src/impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..bcfe9f5 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -161,8 +161,9 @@ impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
         unsafe {
             let mut output = MaybeUninit::uninit_array();
             for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
+                *output = MaybeUninit::new(
+                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?,
+                );
             }
 
             Ok(MaybeUninit::array_assume_init(output))
-- 
2.43.0


From 11e0c54720733e163fd8de4bd919519130fa7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 04/16] fix: a cursor at the end of input does not advance its
 position

Cursor::next counted the end of input as an item, so position() reported more
than was read and a repeated parser that succeeds at the end of input looked
as if it made progress and looped for ever.
---
 nommy/src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 915278a..b96f1f1 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -197,9 +197,9 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index);
+        let output = self.buf.peek_ahead(self.base + self.index)?;
         self.index += 1;
-        output
+        Some(output)
     }
 }
 
-- 
2.43.0


From 99dce92926ab66eca3d6eaf5aead6fd58ab51fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 05/16] fix: derive requires the separator type to be a parser

The generated where clause left out seperated_by types, so a separated list
only compiled together with parse_type.
---
 nommy-derive/src/fn_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..9519d58 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -99,6 +99,9 @@ impl<'a> Builder<'a> {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
             let parser = parser.unwrap();
             self.add_where(&parser);
+            if let Some(sep) = &attrs.vec.seperated_by {
+                self.add_where(&sep);
+            }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
-- 
2.43.0


From 43f27ace7548e748a47287f4a1798f1ffcd9c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 06/16] fix: derived peek of a list field follows its separator
 and trailing mode

peek repeated the element parser with only ignored input in between, so it
disagreed with parse for every separated list (and accepted what parse rejects).
---
 nommy-derive/src/fn_impl.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 9519d58..38fc9e6 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -104,7 +104,8 @@ impl<'a> Builder<'a> {
             }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl
+                .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -287,21 +288,16 @@ impl<'a> Builder<'a> {
         }
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
+    fn peeker_peek_vec_tokens(&self, ty: &syn::Type, attrs: &VecFieldAttr) -> TokenStream {
+        let list = format_ident!("list");
+        let parse_impl = self.parser_parse_vec_tokens(&list, attrs);
 
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
-
-                #after_each
-            }
+            let list = (|| -> ::nommy::eyre::Result<#ty> {
+                #parse_impl
+                Ok(#list)
+            })();
+            if list.is_err() { return false }
         }
     }
 
-- 
2.43.0


From 6b547c1f2f62278a18d0636ac9883157cb2b486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 07/16] fix: derive skips ignored input after list fields too

Every other prefix, field and suffix is followed by the ignore parsers; a list
field was not, so input between a list and the next part failed to parse.
---
 nommy-derive/src/fn_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 38fc9e6..e293cef 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -106,6 +106,7 @@ impl<'a> Builder<'a> {
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl
                 .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
+            self.ignore();
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
-- 
2.43.0


From ed4b2be0996961cfe7d900867bc3c9d1e4fd8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 08/16] fix: list helpers detect zero-progress elements like
 Vec does

An element (and separator) that succeeds without reading anything made the
parse_vec family loop for ever; in debug builds they now panic like Vec.
---
 nommy/src/vec.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nommy/src/vec.rs b/nommy/src/vec.rs
index 85fb7c2..aca592f 100644
--- a/nommy/src/vec.rs
+++ b/nommy/src/vec.rs
@@ -40,6 +40,9 @@ where
         };
 
         let pos = cursor.position();
+        if cfg!(debug_assertions) && pos == 0 {
+            panic!("parsing succeeded with 0 elements read. infinite loop detected");
+        }
         input.fast_forward(pos);
     }
 
@@ -91,6 +94,9 @@ where
         };
 
         let pos = cursor.position();
+        if cfg!(debug_assertions) && pos == 0 {
+            panic!("parsing succeeded with 0 elements read. infinite loop detected");
+        }
         input.fast_forward(pos);
     }
 
@@ -128,6 +134,9 @@ where
         }
         Vec::<Ignore>::peek(&mut cursor);
         let pos = cursor.position();
+        if cfg!(debug_assertions) && pos == 0 {
+            panic!("parsing succeeded with 0 elements read. infinite loop detected");
+        }
         input.fast_forward(pos);
 
         output.push(q);
@@ -162,6 +171,7 @@ where
         };
         let pos = cursor.position();
         input.fast_forward(pos);
+        let empty = pos == 0;
 
         Vec::<Ignore>::peek(input);
 
@@ -170,6 +180,9 @@ where
             break;
         }
         let pos = cursor.position();
+        if cfg!(debug_assertions) && empty && pos == 0 {
+            panic!("parsing succeeded with 0 elements read. infinite loop detected");
+        }
         input.fast_forward(pos);
 
         Vec::<Ignore>::peek(input);
-- 
2.43.0


From 049cc8f63eda83c3a36c19650e3f55d10c927392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 09/16] fix: list options on a field without inner_parser are
 an error

seperated_by and trailing were silently ignored on fields that are not parsed
as lists (and trailing also without a separator).
---
 nommy-derive/src/attr.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 4883709..7ce00b0 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -126,6 +126,7 @@ pub struct VecFieldAttr {
     pub parser: Option<syn::Type>,
     pub seperated_by: Option<syn::Type>,
     pub trailing: Option<bool>,
+    pub trailing_span: Option<Span>,
 }
 
 impl VecFieldAttr {
@@ -142,9 +143,28 @@ impl FieldAttr {
                 output.parse_attr(attr.tokens)?;
             }
         }
+        output.check_vec_options()?;
         Ok(output)
     }
 
+    /// list options only mean something on a field that is parsed as a list
+    fn check_vec_options(&self) -> syn::Result<()> {
+        if self.vec.parser.is_none() {
+            if let Some(sep) = &self.vec.seperated_by {
+                return Err(syn::Error::new_spanned(
+                    sep,
+                    "`seperated_by` requires `inner_parser`",
+                ));
+            }
+        }
+        match self.vec.trailing_span {
+            Some(span) if self.vec.parser.is_none() || self.vec.seperated_by.is_none() => Err(
+                syn::Error::new(span, "`trailing` requires `inner_parser` and `seperated_by`"),
+            ),
+            _ => Ok(()),
+        }
+    }
+
     pub fn parse_attr(&mut self, tokens: TokenStream) -> syn::Result<()> {
         for tt in tokens.into_iter() {
             let (inner, span) = match tt {
@@ -205,7 +225,10 @@ impl FieldAttr {
             "parser" => self.parser = Some(parse_type(ident.span(), tokens)?),
             "inner_parser" => self.vec.parser = Some(parse_type(ident.span(), tokens)?),
             "seperated_by" => self.vec.seperated_by = Some(parse_type(ident.span(), tokens)?),
-            "trailing" => self.parse_trailing(tokens)?,
+            "trailing" => {
+                self.vec.trailing_span = Some(ident.span());
+                self.parse_trailing(tokens)?
+            }
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
-- 
2.43.0


From 9e04d16de1bd85f2ba424fd3dfbcaca61795bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 10/16] fix: trailing without a value and debug with one are
 errors

Both were accepted and silently ignored.
---
 nommy-derive/src/attr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 7ce00b0..3a0b1ab 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -105,7 +105,12 @@ impl GlobalAttr {
             "prefix" => self.prefix = Some(parse_type(ident.span(), tokens)?),
             "suffix" => self.suffix = Some(parse_type(ident.span(), tokens)?),
             "parse_type" => self.parse_type = Some(parse_type(ident.span(), tokens)?),
-            "debug" => self.debug = true,
+            "debug" => {
+                if let Some(t) = tokens.next() {
+                    return Err(syn::Error::new_spanned(t, "expected no more tokens"));
+                }
+                self.debug = true
+            }
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
@@ -227,16 +232,20 @@ impl FieldAttr {
             "seperated_by" => self.vec.seperated_by = Some(parse_type(ident.span(), tokens)?),
             "trailing" => {
                 self.vec.trailing_span = Some(ident.span());
-                self.parse_trailing(tokens)?
+                self.parse_trailing(ident.span(), tokens)?
             }
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
     }
 
-    pub fn parse_trailing(&mut self, mut tokens: proc_macro2::token_stream::IntoIter) -> syn::Result<()> {
+    pub fn parse_trailing(
+        &mut self,
+        span: Span,
+        mut tokens: proc_macro2::token_stream::IntoIter,
+    ) -> syn::Result<()> {
         let span = match tokens.next() {
-            None => return Ok(()),
+            None => return Err(syn::Error::new(span, "expected '=' to follow")),
             Some(TokenTree::Punct(p)) => {
                 if p.as_char() != '=' {
                     return Err(syn::Error::new(p.span(), "expected '=' to follow"))
-- 
2.43.0


From 916554fe5341a9e8ddc963b857058fc7c5ee9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 11/16] fix: derived code does not use field names for its
 variables

A named field called input shadowed the parser's own parameter and the derive
failed to compile.
---
 nommy-derive/src/enum_impl/named.rs   |  9 +++++++--
 nommy-derive/src/fn_impl.rs           |  7 ++++---
 nommy-derive/src/parsers.rs           | 13 +++++++++++--
 nommy-derive/src/struct_impl/named.rs |  5 +++--
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/nommy-derive/src/enum_impl/named.rs b/nommy-derive/src/enum_impl/named.rs
index baa5524..6296ed8 100644
--- a/nommy-derive/src/enum_impl/named.rs
+++ b/nommy-derive/src/enum_impl/named.rs
@@ -1,5 +1,9 @@
 use super::Enum;
-use crate::{attr::GlobalAttr, fn_impl::FnImpl, parsers::NamedField};
+use crate::{
+    attr::GlobalAttr,
+    fn_impl::FnImpl,
+    parsers::{FieldType, NamedField},
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -28,11 +32,12 @@ impl EnumVariantNamed {
 
     pub fn result(&self, enum_: &Enum) -> TokenStream {
         let names = self.fields.iter().map(|f| &f.name);
+        let values = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
             Ok(#enum_name::#variant_name {#(
-                #names: #names,
+                #names: #values,
             )*})
         }
     }
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index e293cef..eea1e9a 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -91,9 +91,10 @@ impl<'a> Builder<'a> {
     pub fn add_field<F: FieldType>(&mut self, field: &F, field_num: usize) {
         let ty = field.ty();
         let name = field.name(field_num);
+        let label = field.label(field_num);
         let attrs = field.attrs();
 
-        self.add_fix(&attrs.prefix, "prefix", format!("field `{}`", name));
+        self.add_fix(&attrs.prefix, "prefix", format!("field `{}`", label));
 
         if attrs.vec.is_some() {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
@@ -114,13 +115,13 @@ impl<'a> Builder<'a> {
             self.parse_impl.extend(self.parser_parse_tokens(
                 &name,
                 &parser,
-                &format!("failed to parse field `{}`", name),
+                &format!("failed to parse field `{}`", label),
             ));
             self.peek_impl.extend(self.peeker_peek_tokens(&parser));
             self.ignore();
         }
 
-        self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", name));
+        self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", label));
     }
 
     pub fn start_variants(&mut self) {
diff --git a/nommy-derive/src/parsers.rs b/nommy-derive/src/parsers.rs
index d05f59f..9b6554a 100644
--- a/nommy-derive/src/parsers.rs
+++ b/nommy-derive/src/parsers.rs
@@ -41,6 +41,9 @@ pub struct UnnamedField {
 
 pub trait FieldType {
     fn ty(&self) -> &syn::Type;
+    /// how error messages refer to the field
+    fn label(&self, i: usize) -> String;
+    /// the variable that holds the parsed field
     fn name(&self, i: usize) -> syn::Ident;
     fn attrs(&self) -> &FieldAttr;
 }
@@ -49,8 +52,11 @@ impl FieldType for NamedField {
     fn ty(&self) -> &syn::Type {
         &self.ty
     }
+    fn label(&self, _: usize) -> String {
+        self.name.to_string()
+    }
     fn name(&self, _: usize) -> syn::Ident {
-        self.name.clone()
+        format_ident!("__field_{}", self.name)
     }
     fn attrs(&self) -> &FieldAttr {
         &self.attrs
@@ -61,8 +67,11 @@ impl FieldType for UnnamedField {
     fn ty(&self) -> &syn::Type {
         &self.ty
     }
+    fn label(&self, i: usize) -> String {
+        format!("elem{}", i)
+    }
     fn name(&self, i: usize) -> syn::Ident {
-        format_ident!("elem{}", i)
+        format_ident!("__field_{}", i)
     }
     fn attrs(&self) -> &FieldAttr {
         &self.attrs
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 1d54bf5..6b573d7 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -6,7 +6,7 @@ use quote::{quote, ToTokens};
 use crate::{
     attr::GlobalAttr,
     fn_impl::{parse_or, BuildOutput, FnImpl},
-    parsers::NamedField,
+    parsers::{FieldType, NamedField},
 };
 
 pub struct Named {
@@ -42,6 +42,7 @@ impl ToTokens for Named {
         } = fn_impl.build(&name);
 
         let names = self.fields.iter().map(|f| &f.name);
+        let values = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
@@ -61,7 +62,7 @@ impl ToTokens for Named {
                     #parse_impl
 
                     Ok(#name {#(
-                        #names,
+                        #names: #values,
                     )*})
                 }
 
-- 
2.43.0


From a404930330f90108c05c47491ee47cfb3a1b21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 12/16] fix: derived helper functions are numbered, not named
 after variants

Lower-cased variant names collide for variants that differ only in case, and
raw identifiers are not valid parts of an identifier.
---
 nommy-derive/src/enum_impl/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 1040a2f..03a3a1a 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -49,7 +49,7 @@ impl ToTokens for Enum {
         outer_builder.add_fix(&attrs.prefix, "prefix", format!("enum `{}`", name));
         outer_builder.start_variants();
 
-        for v in vars {
+        for (i, v) in vars.iter().enumerate() {
             let BuildOutput {
                 peek_impl,
                 parse_impl,
@@ -58,9 +58,8 @@ impl ToTokens for Enum {
 
             outer_builder.add_where_raw(wc.clone());
 
-            let var_name = map_vars!(v => |n| n.name.to_string().to_lowercase());
-            let parse_name = format_ident!("__parse_{}", var_name);
-            let peek_name = format_ident!("__peek_{}", var_name);
+            let parse_name = format_ident!("__parse_{}", i);
+            let peek_name = format_ident!("__peek_{}", i);
             let parse_result = map_vars!(v => |n| n.result(&self));
 
             outer_builder.add_variant(&peek_name, &parse_name);
-- 
2.43.0


From c7a09b25657e0ef6ee17857eb03a11c86c365957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 13/16] fix: derived code imports its traits anonymously

Importing WrapErr and TryInto by name shadowed user types of the same name.
---
 nommy-derive/src/enum_impl/mod.rs       | 8 ++++----
 nommy-derive/src/struct_impl/named.rs   | 4 ++--
 nommy-derive/src/struct_impl/unit.rs    | 4 ++--
 nommy-derive/src/struct_impl/unnamed.rs | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 03a3a1a..752710b 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -90,8 +90,8 @@ impl ToTokens for Enum {
                 impl<#(#args),*> #name<#(#args),*>
                 {
                     #parse_fn {
-                        use ::nommy::eyre::WrapErr;
-                        use ::std::convert::TryInto;
+                        use ::nommy::eyre::WrapErr as _;
+                        use ::std::convert::TryInto as _;
                         #parse_impl
                         #parse_result
                     }
@@ -128,8 +128,8 @@ impl ToTokens for Enum {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(result)
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 6b573d7..2973f9e 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -57,8 +57,8 @@ impl ToTokens for Named {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(#name {#(
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index 55350f4..fb7c2ee 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -51,8 +51,8 @@ impl ToTokens for Unit {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
                     Ok(#name)
                 }
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index fa1768b..1e6b7cc 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -56,8 +56,8 @@ impl ToTokens for Unnamed {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(#name (#(
-- 
2.43.0


From 7bbc4167b47433e9b98c62a45824d33d1a12d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 14/16] fix: commas inside generic arguments do not split
 attribute options

#[nommy(prefix = Pair<A, B>)] was cut at the comma and rejected.
---
 nommy-derive/src/attr.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 3a0b1ab..d97ecb8 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -29,6 +29,25 @@ fn parse_type(
     syn::parse2(stream)
 }
 
+/// nesting depth of `<` `>`, which do not form token groups of their own
+#[derive(Default)]
+struct Angles {
+    depth: usize,
+    after_minus: bool,
+}
+
+impl Angles {
+    fn update(&mut self, p: &proc_macro2::Punct) {
+        match p.as_char() {
+            '<' => self.depth += 1,
+            // the end of `->` closes nothing
+            '>' if !self.after_minus => self.depth = self.depth.saturating_sub(1),
+            _ => {}
+        }
+        self.after_minus = p.as_char() == '-' && p.spacing() == proc_macro2::Spacing::Joint;
+    }
+}
+
 impl GlobalAttr {
     pub fn extend_with(mut self, extend: &Self) -> Self {
         self.ignore.extend_from_slice(&extend.ignore);
@@ -74,10 +93,12 @@ impl GlobalAttr {
 
     pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
         let mut stream = TokenStream::new();
+        let mut angles = Angles::default();
         for tt in tokens {
             match tt {
                 TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
+                    angles.update(&p);
+                    if p.as_char() == ',' && angles.depth == 0 {
                         let mut tmp = TokenStream::new();
                         std::mem::swap(&mut stream, &mut tmp);
                         self.parse_arg(span, tmp)?;
@@ -198,10 +219,12 @@ impl FieldAttr {
 
     pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
         let mut stream = TokenStream::new();
+        let mut angles = Angles::default();
         for tt in tokens {
             match tt {
                 TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
+                    angles.update(&p);
+                    if p.as_char() == ',' && angles.depth == 0 {
                         let mut tmp = TokenStream::new();
                         std::mem::swap(&mut stream, &mut tmp);
                         self.parse_arg(span, tmp)?;
-- 
2.43.0


From 977c0872da6aa3857b629621f39a532885cdf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 15/16] fix: derive recognises recursive fields spelled
 Name<..>, self::Name or Self

Only a bare Name was recognised; the other spellings put the type itself into
its own where clause, which overflows when resolved.
---
 nommy-derive/src/ty.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/ty.rs b/nommy-derive/src/ty.rs
index f3f762a..7b16e7c 100644
--- a/nommy-derive/src/ty.rs
+++ b/nommy-derive/src/ty.rs
@@ -4,8 +4,17 @@ pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> bool {
         syn::Type::Group(ty) => contains(&ty.elem, type_name),
         syn::Type::Paren(ty) => contains(&ty.elem, type_name),
         syn::Type::Path(path) => match path.path.get_ident() {
-            Some(ident) => *ident == *type_name,
+            Some(ident) => *ident == *type_name || *ident == "Self",
             None => {
+                // `Name<..>` or `self::Name`
+                let mut segments = path.path.segments.iter();
+                let mut first = segments.next();
+                if first.map_or(false, |s| s.ident == "self") {
+                    first = segments.next();
+                }
+                if segments.next().is_none() && first.map_or(false, |s| s.ident == *type_name) {
+                    return true;
+                }
                 for segment in &path.path.segments {
                     match &segment.arguments {
                         syn::PathArguments::AngleBracketed(generic_args) => {
-- 
2.43.0


From 5b7e8447c7f4fc124721d6db80100b4814f3a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 16/16] fix: recursive enums derive without parse_type

The helper functions of a variant only carried that variant's bounds, so a
variant holding the enum itself did not compile.
---
 nommy-derive/src/enum_impl/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 752710b..b557436 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -43,6 +43,16 @@ impl ToTokens for Enum {
             generic,
         } = self;
 
+        // a recursive variant needs the bounds of the whole enum
+        let mut bounds = Builder::new(generic, name, &attrs.parse_type);
+        bounds.create_ignore(&attrs.ignore);
+        bounds.add_fix(&attrs.prefix, "prefix", String::new());
+        bounds.add_fix(&attrs.suffix, "suffix", String::new());
+        for v in vars {
+            bounds.add_where_raw(map_vars!(v => |n| n.fn_impl(&self).build(&name)).wc);
+        }
+        let enum_wc = bounds.build().wc;
+
         let mut outer_builder = Builder::new(generic, name, &attrs.parse_type);
 
         outer_builder.create_ignore(&attrs.ignore);
@@ -77,10 +87,10 @@ impl ToTokens for Enum {
                 ),
                 None => (
                     quote!{
-                        fn #peek_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> bool where #wc
+                        fn #peek_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> bool where #enum_wc
                     },
                     quote!{
-                        fn #parse_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
+                        fn #parse_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #enum_wc
                     },
                 ),
             };
-- 
2.43.0

