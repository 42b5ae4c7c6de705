From a9854a869de307a6a945d35d33d03e0a8e1c2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/13] fix: derive(ToTokens) must not bind enum fields by
 their own names

A field named 'tokens' in a struct-like variant shadowed the 'tokens'
parameter of the generated method, so the derived impl did not compile.
---
 parsel_derive/src/to_tokens.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..a0cc631 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -87,35 +87,31 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
         .iter()
         .map(|variant| {
             let variant_name = &variant.ident;
-            let field_names = match &variant.fields {
-                Fields::Unit => Vec::new(),
+            // The bindings never reuse the names of the fields, so that
+            // they can't shadow the other names in the generated code.
+            let field_bindings: Vec<_> = (0..variant.fields.len())
+                .map(|i| format_ident!("parsel_field_{}_{}", variant_name, i))
+                .collect();
+            let bindings = match &variant.fields {
+                Fields::Unit => TokenStream::new(),
                 Fields::Named(fields) => {
-                    fields.named
+                    let field_names = fields.named
                         .iter()
                         .map(|field| {
-                            field.ident.clone().ok_or_else(|| {
+                            field.ident.as_ref().ok_or_else(|| {
                                 Error::new(field.span(), "unnamed field in named struct")
                             })
                         })
-                        .collect::<Result<_>>()?
-                }
-                Fields::Unnamed(fields) => {
-                    fields.unnamed
-                        .iter()
-                        .enumerate()
-                        .map(|(i, _)| format_ident!("parsel_field_{}_{}", variant_name, i))
-                        .collect()
+                        .collect::<Result<Vec<_>>>()?;
+
+                    quote!({ #(#field_names: #field_bindings,)* })
                 }
-            };
-            let bindings = match &variant.fields {
-                Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
+                Fields::Unnamed(_) => quote!{ (#(#field_bindings),*) },
             };
 
             Ok(quote!{
                 #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#field_names, &mut *tokens);)*
+                    #(::parsel::ToTokens::to_tokens(#field_bindings, &mut *tokens);)*
                 }
             })
         })
-- 
2.43.0


From 2e5526b6a2c694f6aefd84033fdecd7831ed4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 02/13] fix: derive(ToTokens) must compile for enums without
 variants

---
 parsel_derive/src/to_tokens.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index a0cc631..e3f4b0a 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -73,6 +73,12 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let body = expand_variants(ty_name, data)?;
 
+    // A reference is always considered inhabited, so the
+    // `match` over an empty `enum` must be done by value.
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
+
     Ok(quote!{
         match self {
             #body
-- 
2.43.0


From 99ee5f7d92a1342db486af1ca72d7e4b8b485c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/13] fix: derive(Parse) must not resolve Err in the scope of
 the user

---
 parsel_derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index fea02b3..e2691db 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -105,7 +105,7 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
         #parsers
 
-        Err(
+        ::parsel::Result::Err(
             error.unwrap_or_else(|| {
                 input.error("parsing an empty choice (enum) always fails")
             })
-- 
2.43.0


From 0c3f92972eaacbc2acb587e521f6ad03717573d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/13] fix: reject float literals that overflow to infinity

1e400 was accepted as an infinite value, and then printing it panicked.
---
 parsel/src/ast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..540f941 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2649,6 +2649,13 @@ impl TryFrom<syn::LitFloat> for LitFloat {
     fn try_from(lit: syn::LitFloat) -> Result<Self> {
         let value: NotNan<f64> = lit.base10_parse()?;
         let span = lit.span();
+
+        // `f64::from_str()` yields infinity instead of an error if the number is
+        // too large, but infinity isn't the value of any literal, nor is it printable.
+        if value.is_infinite() {
+            return Err(Error::new(span, "number too large to fit in target type"));
+        }
+
         Ok(LitFloat::new(value, span))
     }
 }
-- 
2.43.0


From f65c8ef46105d5f03495253eb90fe158aaf00d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 05/13] fix: the literal -0 must survive printing and parsing

'-0' parsed as a signed zero that printed as '0', which parses as an unsigned
zero, a different node.
---
 parsel/src/ast.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 540f941..009e1b2 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -3179,7 +3179,14 @@ impl TryFrom<syn::Lit> for Lit {
             syn::Lit::Byte(lit) => Ok(Lit::Byte(lit.into())),
             syn::Lit::Int(lit) => {
                 if lit.base10_digits().trim().starts_with('-') {
-                    LitInt::try_from(lit).map(Lit::Int)
+                    LitInt::try_from(lit).map(|lit| {
+                        if lit.value == 0 {
+                            // negative zero is not negative, and it prints as `0`
+                            Lit::Uint(LitUint::new(0, lit.span))
+                        } else {
+                            Lit::Int(lit)
+                        }
+                    })
                 } else {
                     LitUint::try_from(lit).map(Lit::Uint)
                 }
-- 
2.43.0


From ac65ae7b94add8203f299db65f5b257a86ffb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 06/13] fix: no stray indentation before the contents of
 undelimited groups

---
 parsel/src/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index d104f1b..b3a6833 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -402,6 +402,11 @@ where
     /// Format a `TokenStream` respecting the specified indentation.
     pub fn write(&mut self, stream: TokenStream) -> fmt::Result {
         self.write_indent()?;
+        self.write_stream(stream)
+    }
+
+    /// Writes the tokens themselves, without indenting the first line.
+    fn write_stream(&mut self, stream: TokenStream) -> fmt::Result {
         let mut spacing = Spacing::Joint;
         let mut iter = stream.into_iter().peekable();
 
@@ -431,7 +436,8 @@ where
                     let inner_stream = group.stream();
                     let (open, close) = match group.delimiter() {
                         Delimiter::None => {
-                            self.write(inner_stream)?;
+                            // its contents continue the current line
+                            self.write_stream(inner_stream)?;
                             continue;
                         }
                         Delimiter::Parenthesis => ('(', ')'),
-- 
2.43.0


From 7b97826f1338bbcb1f8d0c34428bf2565be191be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/13] fix: account for a leading byte-order mark in source
 ranges

---
 parsel/src/util.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index b3a6833..4461ae5 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -186,6 +186,8 @@ where
 /// Compute byte offset from line and column because
 /// we can't directly get the byte range of a `Span`.
 fn byte_offset(source: &str, loc: LineColumn) -> usize {
+    let (bom, source) = split_byte_order_mark(source);
+
     // split including newlines so that they are also counted
     let mut lines = source.split_inclusive('\n');
 
@@ -203,12 +205,14 @@ fn byte_offset(source: &str, loc: LineColumn) -> usize {
             .map_or(line.len(), |(index, _)| index)
     });
 
-    line_offset + char_offset
+    bom.len() + line_offset + char_offset
 }
 
 /// Compute char offset from line and column because
 /// we can't directly get the byte range of a `Span`.
 fn char_offset(source: &str, loc: LineColumn) -> usize {
+    let (bom, source) = split_byte_order_mark(source);
+
     // split including newlines so that they are also counted
     let mut lines = source.split_inclusive('\n');
 
@@ -222,7 +226,14 @@ fn char_offset(source: &str, loc: LineColumn) -> usize {
     // `char` offset within the current line
     let char_offset = loc.column;
 
-    line_offset + char_offset
+    bom.chars().count() + line_offset + char_offset
+}
+
+/// The lexer discards a byte-order mark at the beginning of the source,
+/// so it's not included in the column numbers of the first line.
+fn split_byte_order_mark(source: &str) -> (&str, &str) {
+    let len = if source.starts_with('\u{feff}') { '\u{feff}'.len_utf8() } else { 0 };
+    source.split_at(len)
 }
 
 /// Helper type that formats a `Span` in a human-readable way.
-- 
2.43.0


From b961df903cb30506b1260bf03d54aa6ec633ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 08/13] fix: keywords declared as raw identifiers must be
 printable

define_keywords! accepted 'r#type => Type;', and the resulting type parsed
'r#type', but turning it into tokens panicked.
---
 parsel/src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 009e1b2..8376f35 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,10 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                match ::core::primitive::str::strip_prefix($string, "r#") {
+                    ::core::option::Option::Some(raw) => ::parsel::ast::Ident::new_raw(raw, self.span),
+                    ::core::option::Option::None => ::parsel::ast::Ident::new($string, self.span),
+                }
             }
         }
 
-- 
2.43.0


From 23bedd74a8d4d1c6dd9c0290c3c37483edee5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 09/13] Revert "fix: account for a leading byte-order mark in
 source ranges"

The lexer counts the mark in the columns of the first line, so the
original code was right.
---
 parsel/src/util.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index 4461ae5..b3a6833 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -186,8 +186,6 @@ where
 /// Compute byte offset from line and column because
 /// we can't directly get the byte range of a `Span`.
 fn byte_offset(source: &str, loc: LineColumn) -> usize {
-    let (bom, source) = split_byte_order_mark(source);
-
     // split including newlines so that they are also counted
     let mut lines = source.split_inclusive('\n');
 
@@ -205,14 +203,12 @@ fn byte_offset(source: &str, loc: LineColumn) -> usize {
             .map_or(line.len(), |(index, _)| index)
     });
 
-    bom.len() + line_offset + char_offset
+    line_offset + char_offset
 }
 
 /// Compute char offset from line and column because
 /// we can't directly get the byte range of a `Span`.
 fn char_offset(source: &str, loc: LineColumn) -> usize {
-    let (bom, source) = split_byte_order_mark(source);
-
     // split including newlines so that they are also counted
     let mut lines = source.split_inclusive('\n');
 
@@ -226,14 +222,7 @@ fn char_offset(source: &str, loc: LineColumn) -> usize {
     // `char` offset within the current line
     let char_offset = loc.column;
 
-    bom.chars().count() + line_offset + char_offset
-}
-
-/// The lexer discards a byte-order mark at the beginning of the source,
-/// so it's not included in the column numbers of the first line.
-fn split_byte_order_mark(source: &str) -> (&str, &str) {
-    let len = if source.starts_with('\u{feff}') { '\u{feff}'.len_utf8() } else { 0 };
-    source.split_at(len)
+    line_offset + char_offset
 }
 
 /// Helper type that formats a `Span` in a human-readable way.
-- 
2.43.0


From 23f7cdd70003b2a5a0eb85ec4d179e19940a2902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 10/13] fix: do not rely on inference for the type arguments of
 derived parsers

The derived Parse impl named the type being constructed without its generic
arguments, which were then inferred from the field types. With a generic
recursive field, this could pick the type of another field's bound, and the
derived code did not compile.
---
 parsel_derive/src/parse.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index e2691db..cfc7ed1 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -45,7 +45,12 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
     // these are passed to `chain_error()` for describing the production currently being parsed
     let enum_str = enum_name.map(Ident::to_string).unwrap_or_default();
     let ctor_str = ctor_name.to_string();
-    let enum_name = enum_name.into_iter();
+    // The constructor is named via `Self`, so that the generic arguments of the type are known
+    // when its fields are parsed, instead of having to be inferred from the field types.
+    let ctor = match enum_name {
+        Some(_) => quote!(Self::#ctor_name),
+        None => quote!(Self),
+    };
 
     // It is correct to rely on the evaluation order being left-to-right
     // in source order, in the case of both named and tuple fields:
@@ -69,7 +74,7 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
                 .collect::<Result<_>>()?;
 
             Ok(quote!{
-                let ast_node = #(#enum_name::)* #ctor_name {
+                let ast_node = #ctor {
                     #(#inits,)*
                 };
                 ::parsel::Result::Ok(ast_node)
@@ -85,13 +90,13 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
             });
 
             Ok(quote!{
-                let ast_node = #(#enum_name::)* #ctor_name(#(#inits),*);
+                let ast_node = #ctor(#(#inits),*);
                 ::parsel::Result::Ok(ast_node)
             })
         }
         Fields::Unit => {
             Ok(quote!{
-                ::parsel::Result::Ok(#(#enum_name::)* #ctor_name)
+                ::parsel::Result::Ok(#ctor)
             })
         }
     }
-- 
2.43.0


From aa057bdca757cdc45aa4288a655ac35d51df5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 11/13] fix: keyword types may have any name, including T, H
 and bool

The names of the generic parameters and the unqualified bool in the expansion
of define_keywords! referred to a keyword type of the same name.
---
 parsel/src/ast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 8376f35..3d21aab 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -337,22 +337,22 @@ macro_rules! define_keywords {
         }
 
         // These traits are implemented manually because `Span: !PartialEq + !Hash`
-        impl<T> ::core::cmp::PartialEq<T> for $name
+        impl<__T> ::core::cmp::PartialEq<__T> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            __T: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn eq(&self, other: &T) -> bool {
+            fn eq(&self, other: &__T) -> ::core::primitive::bool {
                 self.as_str() == ::core::convert::AsRef::as_ref(other)
             }
         }
 
         impl ::core::cmp::Eq for $name {}
 
-        impl<T> ::core::cmp::PartialOrd<T> for $name
+        impl<__T> ::core::cmp::PartialOrd<__T> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            __T: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn partial_cmp(&self, other: &T) -> ::core::option::Option<::core::cmp::Ordering> {
+            fn partial_cmp(&self, other: &__T) -> ::core::option::Option<::core::cmp::Ordering> {
                 ::core::option::Option::Some(
                     ::core::cmp::Ord::cmp(self.as_str(), ::core::convert::AsRef::as_ref(other))
                 )
@@ -366,7 +366,7 @@ macro_rules! define_keywords {
         }
 
         impl ::core::hash::Hash for $name {
-            fn hash<H>(&self, _state: &mut H) {}
+            fn hash<__H>(&self, _state: &mut __H) {}
         }
 
         impl ::core::fmt::Debug for $name {
-- 
2.43.0


From bde355a5e8c9365d798e1a9e315f180a48dd4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 12/13] fix: restore the indentation of a formatter after a
 failed write

A TokenStreamFormatter whose writer failed within a group kept the indentation
level of that group, and indented everything it wrote later.
---
 parsel/src/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index b3a6833..7686c57 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -452,11 +452,12 @@ where
                     // NOTE: this _also_ applies when _not_ pretty-printing.
                     if !inner_stream.is_empty() {
                         self.indent_level += 1;
-                        self.write_newline(Spacing::Joint)?;
-
-                        self.write(inner_stream)?;
-
+                        let result = self
+                            .write_newline(Spacing::Joint)
+                            .and_then(|()| self.write(inner_stream));
                         self.indent_level -= 1;
+
+                        result?;
                         self.write_newline_and_indent(Spacing::Joint)?;
                     }
 
-- 
2.43.0


From a849a01740f5c6c172bb0181ecb80a8dc8946f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:19 +0000
Subject: [PATCH 13/13] fix: don't panic when a TokenStream is parsed within a
 choice, an optional or a repetition

---
 parsel/src/ast.rs  |  3 +--
 parsel/src/util.rs | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 3d21aab..82f5d36 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -19,10 +19,9 @@ use ordered_float::NotNan;
 use syn::spanned::Spanned;
 use syn::ext::IdentExt;
 use syn::parse::{Error, Result, Parse, ParseStream};
-use syn::parse::discouraged::Speculative;
 use syn::punctuated::{Pair, IntoIter, Iter, IterMut, IntoPairs, Pairs, PairsMut};
 use quote::{ToTokens, TokenStreamExt};
-use crate::util::format_ast_node;
+use crate::util::{format_ast_node, Speculative};
 
 pub use proc_macro2::Ident;
 pub use syn::Token;
diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index 7686c57..6dce83a 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -4,7 +4,8 @@ use core::cmp::max_by_key;
 use core::ops::Range;
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use proc_macro2::{TokenStream, TokenTree, Spacing, Delimiter};
-use syn::parse::{ParseStream, discouraged::Speculative};
+use syn::buffer::Cursor;
+use syn::parse::{ParseBuffer, ParseStream, discouraged};
 use quote::ToTokens;
 use crate::{Error, Result, Span, Spanned, LineColumn};
 
@@ -353,6 +354,24 @@ where
     }
 }
 
+/// Like [`syn::parse::discouraged::Speculative`], but it also supports forks from which a
+/// `TokenStream` has been parsed. Since that takes everything, it leaves behind a cursor
+/// over a static empty buffer, and `syn` doesn't recognize it as derived from the original.
+pub(crate) trait Speculative {
+    fn advance_to(&self, fork: &Self);
+}
+
+impl Speculative for ParseBuffer<'_> {
+    fn advance_to(&self, fork: &Self) {
+        if fork.cursor() == Cursor::empty() && self.cursor() != Cursor::empty() {
+            // the rest of the input has been consumed, too
+            self.step(|_| Ok(((), Cursor::empty()))).unwrap_or_default();
+        }
+
+        discouraged::Speculative::advance_to(self, fork);
+    }
+}
+
 /// Helper type for correctly and reasonably "pretty"-printing any `TokenStream` in
 /// a grammar- and language-agnostic way. This mostly means dealing with parentheses,
 /// so that nested structures don't end up on one single long line.
-- 
2.43.0

