From ed88132a07b88eb5a9296a1b295804aa7861484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 01/16] fix: anchor the regex of the asterisk route

The route path `*` was compiled to the unanchored regex `\*`, so it also
matched every request path that merely contains an asterisk (`/a*b`).
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From 0bece1dea975c23dedb7bd79a3e73ad16387d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 02/16] fix: allow the asterisk route to be declared after
 other routes

`find_overlap` only handled `*` as the first path. With `*` as the second
one it ran into the assertion in `segments_fused`, so the derive panicked
with an internal message depending on the order of the variants.
---
 derive/src/from_request/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..939affe 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -498,9 +498,9 @@ impl RoutePath {
     pub fn find_overlap(&self, other: &Self) -> Option<String> {
         use self::PathSegment::*;
 
-        if self.segments.is_empty() {
-            // self is "*"
-            if other.segments.is_empty() {
+        if self.segments.is_empty() || other.segments.is_empty() {
+            // At least one path is "*", which only overlaps with itself
+            if self.segments.is_empty() && other.segments.is_empty() {
                 return Some("*".into());
             } else {
                 return None;
-- 
2.43.0


From 4df7802797263e3c8c3d8fe0d80b955e7f7b8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 03/16] fix: do not report an overlap of a placeholder with an
 empty segment

A `{placeholder}` only matches non-empty path segments, so `/` and `/{id}`
(or `/a/` and `/a/{id}`) never match the same path, but were rejected.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 939affe..48b9c90 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -531,6 +531,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // Placeholders never match an empty segment
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From f2a2611031365313f623816135ef771cda9a9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 04/16] fix: do not require users of #[query_params] to depend
 on serde_urlencoded

The code generated for `#[query_params]` fields refers to
`serde_urlencoded`, which was only in scope if the crate invoking the
derive happened to depend on it.
---
 derive/src/from_request/mod.rs | 2 +-
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..55efde1 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -412,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
+            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From a49e17e609704b44496819c6a021a472cb92e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 05/16] fix: forward poll_ready through the catch_unwind
 adapter

`CatchUnwind` used the default `Service::poll_ready`, which is always
ready, so wrapping a service disabled its backpressure: requests were
dispatched to it while it reported not being ready.
---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0


From 2593bef466595e32488c197d399e468b911838d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 06/16] fix: support Option in #[query_params] fields

The documentation of `FromRequest` shows a `#[query_params]` field of type
`Option<Pagination>` that is `None` for a request without parameters, but
`serde_urlencoded` can not deserialize an `Option` from a query string, so
every request to such a route failed with `400 Bad Request`.
---
 derive/src/from_request/mod.rs |  4 +-
 src/lib.rs                     |  3 +-
 src/query.rs                   | 77 ++++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+), 3 deletions(-)
 create mode 100644 src/query.rs

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 55efde1..a6ff866 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -412,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, serde_urlencoded,
+            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, from_query,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
@@ -725,7 +725,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match from_query::<#ty>(raw_query) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index fda9220..836017a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,6 +153,7 @@ TODO:
 
 pub mod body;
 mod error;
+mod query;
 mod readme;
 pub mod service;
 
@@ -165,7 +166,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex, serde_urlencoded};
+pub use {lazy_static::lazy_static, query::from_query, regex};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
diff --git a/src/query.rs b/src/query.rs
new file mode 100644
index 0000000..38543c4
--- /dev/null
+++ b/src/query.rs
@@ -0,0 +1,77 @@
+//! Decodes query parameters for `#[query_params]` fields.
+
+use serde::de::{value::Error, Deserialize, DeserializeOwned, Deserializer, Error as _, Visitor};
+use serde::forward_to_deserialize_any;
+
+/// Deserializes a `T` from the query string of a request.
+///
+/// This uses `serde_urlencoded`, but also supports `Option` as the outermost
+/// type, which `serde_urlencoded` does not: It is `None` if there are no query
+/// parameters.
+pub fn from_query<T: DeserializeOwned>(query: &str) -> Result<T, Error> {
+    if query.is_empty() {
+        if let Ok(none) = T::deserialize(Absent) {
+            return Ok(none);
+        }
+    }
+
+    serde_urlencoded::from_str::<Present<T>>(query).map(|present| present.0)
+}
+
+/// A deserializer for missing query parameters: only supports `Option`s.
+struct Absent;
+
+impl<'de> Deserializer<'de> for Absent {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
+        Err(Error::custom("missing query parameters"))
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
+        visitor.visit_none()
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
+        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
+/// A `T` that is deserialized using `Transparent`.
+struct Present<T>(T);
+
+impl<'de, T: Deserialize<'de>> Deserialize<'de> for Present<T> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        T::deserialize(Transparent(deserializer)).map(Present)
+    }
+}
+
+/// Wraps the `serde_urlencoded` deserializer and deserializes `Option<T>` like `T`.
+struct Transparent<D>(D);
+
+impl<'de, D: Deserializer<'de>> Deserializer<'de> for Transparent<D> {
+    type Error = D::Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_any(visitor)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        visitor.visit_some(self.0)
+    }
+
+    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_seq(visitor)
+    }
+
+    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_unit(visitor)
+    }
+
+    // Like in `serde_urlencoded`, everything else is treated as a map.
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit_struct
+        newtype_struct tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
-- 
2.43.0


From 9b4201f19c579a655576c6b8c55e38d9343751a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 07/16] fix: accept any fields on variants the derive never
 creates

A variant with neither a route nor a `#[forward]` field is ignored by
`#[derive(FromRequest)]`, but its fields were still treated as guards:
tuple variants were rejected, and on generic types the fields had to
implement `Guard`.
---
 derive/src/from_request/parse.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 48b9c90..859a7da 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -237,15 +237,19 @@ impl VariantData {
             let field_kind = field_kind.unwrap_or(FieldKind::Guard);
 
             if field_kind == FieldKind::Guard {
-                guard_fields.push(
-                    field
-                        .ident
-                        .clone()
-                        .expect("#[derive(FromRequest)] requires named fields"),
-                );
+                guard_fields.push(field.ident.clone());
             }
         }
 
+        // If we never create this variant, its fields aren't guards and can be anything.
+        if routes.is_empty() && forward_field.is_none() {
+            guard_fields.clear();
+        }
+        let guard_fields = guard_fields
+            .into_iter()
+            .map(|ident| ident.expect("#[derive(FromRequest)] requires named fields"))
+            .collect::<Vec<_>>();
+
         if body_field.is_some() && forward_field.is_some() {
             panic!("#[body] and #[forward] cannot be combined in the same variant/struct");
         }
-- 
2.43.0


From 76bb51f9cc699e5c41b040a3ddc018fdde12c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 08/16] verif hook: allow building the derive crate as a
 library (cfg hyperdrive_verif)

---
 derive/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 59f5dd1..9f4a437 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -8,6 +8,7 @@
 #![recursion_limit = "256"]
 #![warn(rust_2018_idioms)]
 
+#[cfg(not(hyperdrive_verif))]
 use synstructure::decl_derive;
 
 mod from_request;
@@ -17,6 +18,7 @@ mod utils;
 use from_request::derive_from_request;
 use request_context::derive_request_context;
 
+#[cfg(not(hyperdrive_verif))]
 decl_derive!([FromRequest, attributes(
     // Attributes need to be kept in sync with from_request/parse.rs
 
@@ -28,6 +30,25 @@ decl_derive!([FromRequest, attributes(
     // FIXME support arbitrary HTTP verbs (eg. for WebDAV)
 )] => derive_from_request);
 
+#[cfg(not(hyperdrive_verif))]
 decl_derive!([RequestContext, attributes(
     as_ref
 )] => derive_request_context);
+
+// Verification hook, off by default: lets this crate be built as a normal library (which a
+// `proc-macro` crate can't be) in order to run the derives on generated items in-process.
+#[cfg(hyperdrive_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use proc_macro2::TokenStream;
+    use syn::DeriveInput;
+    use synstructure::Structure;
+
+    pub fn from_request(input: &DeriveInput) -> TokenStream {
+        crate::derive_from_request(Structure::new(input))
+    }
+
+    pub fn request_context(input: &DeriveInput) -> TokenStream {
+        crate::derive_request_context(Structure::new(input))
+    }
+}
-- 
2.43.0


From ebdd5f0d1f5421302292b12c7e679b54c78e394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 09/16] fix: ignore attributes of other macros and tools in
 derive(FromRequest)

The derive tried to parse every attribute on the item and unwrapped the
result, so attributes such as `#[allow(clippy::all)]` or
`#[rustfmt::skip]`, whose syntax is not a simple meta item, made it panic.
---
 derive/src/from_request/parse.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 859a7da..ae73a26 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -31,6 +31,17 @@ fn is_method(name: &Ident) -> bool {
     METHOD_ATTRS.iter().cloned().find(|a| name == *a).is_some()
 }
 
+/// Parses `attr` if it is an attribute used by this custom derive.
+///
+/// Returns `None` for all other attributes, which can have arbitrary syntax.
+fn parse_our_attr(attr: &Attribute) -> Option<Meta> {
+    if our_attrs().any(|name| attr.path.is_ident(name)) {
+        Some(attr.parse_meta().unwrap())
+    } else {
+        None
+    }
+}
+
 /// Parsed attributes attached to the item that does `#[derive(FromRequest)]`.
 pub struct ItemData {
     name: Ident,
@@ -42,7 +53,10 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
+            let name = match parse_our_attr(attr) {
+                Some(meta) => meta.name(),
+                None => continue,
+            };
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
@@ -105,7 +119,10 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
-            let meta = attr.parse_meta().unwrap();
+            let meta = match parse_our_attr(attr) {
+                Some(meta) => meta,
+                None => continue,
+            };
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
                     routes.push(Route::parse(
@@ -184,7 +201,10 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
-                let meta = attr.parse_meta().unwrap();
+                let meta = match parse_our_attr(attr) {
+                    Some(meta) => meta,
+                    None => continue,
+                };
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
                         if let Some(ident) = &field.ident {
-- 
2.43.0


From 2b8ceef7f652009983cfaf731174e27bcdee3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 10/16] fix: accept any type in the #[context] attribute

The derive knows to parse the argument of `#[context(..)]` as a type, but
insisted that it is a valid meta item first, so types with a path or type
parameters, like `#[context(ctx::Ctx)]`, made it panic.
---
 derive/src/from_request/parse.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index ae73a26..64f5471 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -53,14 +53,18 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
+            // The type in `#[context(Type)]` isn't necessarily a valid `Meta`.
+            if attr.path.is_ident("context") {
+                let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
+                insert("#[context]", &mut context, ty);
+                continue;
+            }
+
             let name = match parse_our_attr(attr) {
                 Some(meta) => meta.name(),
                 None => continue,
             };
-            if name == "context" {
-                let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
-                insert("#[context]", &mut context, ty);
-            } else if known_attr(&name) && !is_struct {
+            if known_attr(&name) && !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
                     name
@@ -119,6 +123,11 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
+            if is_struct && attr.path.is_ident("context") {
+                // Already handled by `ItemData`
+                continue;
+            }
+
             let meta = match parse_our_attr(attr) {
                 Some(meta) => meta,
                 None => continue,
-- 
2.43.0


From 50c3eae4404a2e161787b84ad6272e8c6b0c5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 11/16] fix: do not add bounds to the impls of
 derive(RequestContext)

synstructure added a `T: RequestContext` (`T: AsRef<..>`) bound for every
type parameter used in a field, so a generic context could only be used if
its type arguments were request contexts themselves.
---
 derive/src/request_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..4d14720 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,12 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // None of the impls require anything from the type parameters
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From 6c08ae2bb90e82b730dab77e20d962946563a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 12/16] fix: let generic types use the same guard or body type
 more than once

The bounds generated for a generic type introduced one fresh type parameter
per guard and body field. Two bounds for the same concrete type were then
ambiguous, and the generated impl failed to compile (type annotations
needed). Use associated type projections instead.
---
 derive/src/from_request/mod.rs | 217 ++++++++-------------------------
 1 file changed, 48 insertions(+), 169 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index a6ff866..e76e7bb 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -71,7 +71,7 @@ mod parse;
 use self::parse::{FieldKind, ItemData, PathMap, VariantData};
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
-use std::iter::{self, FromIterator};
+use std::iter;
 use synstructure::{AddBounds, Structure, VariantInfo};
 
 pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
@@ -395,19 +395,11 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         // Don't add where clause if there are no generics
         TokenStream::new()
     } else {
-        let impl_bounds = bounds.impl_bounds;
         quote! {
-            where #(#impl_bounds),*
+            where #(#bounds),*
         }
     };
 
-    // `add_impl_generic` is ignored when using `gen_impl`, so build the generics ourselves.
-    let impl_generics = if is_type_generic {
-        bounds.addl_ty_params
-    } else {
-        Vec::new()
-    };
-
     s.gen_impl(quote!(
         extern crate hyperdrive;
         use hyperdrive::{
@@ -421,7 +413,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use core::str::FromStr;
         use std::sync::Arc;
 
-        gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
+        gen impl FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
             type Context = #context;
 
@@ -469,177 +461,64 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
     ))
 }
 
-/// Information about trait bounds that need to hold for a `FromRequest` impl to be applicable.
-struct Bounds {
-    /// Additional type parameters to add to the impl.
-    ///
-    /// User-defined type params on the type are always kept.
-    addl_ty_params: Vec<Ident>,
-
-    /// `where`-clause trait bounds to add to the generated `FromRequest` impl.
-    impl_bounds: Vec<TokenStream>,
-}
-
-/// This impl enables `collect()`ing an iterator yielding `Bounds` into a single `Bounds` struct.
-impl FromIterator<Bounds> for Bounds {
-    fn from_iter<T: IntoIterator<Item = Self>>(iter: T) -> Self {
-        let mut addl_ty_params = Vec::new();
-        let mut impl_bounds = Vec::new();
-        for bounds in iter {
-            addl_ty_params.extend(bounds.addl_ty_params);
-            impl_bounds.extend(bounds.impl_bounds);
-        }
-
-        Self {
-            addl_ty_params,
-            impl_bounds,
-        }
-    }
-}
-
-fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
+/// Generates the trait bounds that need to hold for a `FromRequest` impl to be applicable, to be
+/// added to its `where`-clause.
+fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Vec<TokenStream> {
     let context = item
         .context()
         .map(|c| c.into_token_stream())
         .unwrap_or_else(|| quote!(::hyperdrive::NoContext));
 
-    let mut ty_param_counter = 0;
-    let mut ty_params = Vec::new();
-
-    // Creates a unique type parameter containing the given name, and adds it to the returned
-    // `Bounds`
-    let mut mkty = |name| -> Ident {
-        let ident = Ident::new(
-            &format!("_hyperdrive_{}_{}", name, ty_param_counter),
-            Span::call_site(),
-        );
-        ty_param_counter += 1;
-        ty_params.push(ident.clone());
-        ident
-    };
-
-    let mut bounds: Bounds = variants
+    variants
         .iter()
         .flat_map(|v| v.field_uses())
-        .map(|(field, field_kind)| {
+        .flat_map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
-                FieldKind::PathSegment => Bounds {
-                    addl_ty_params: Vec::new(),
-                    impl_bounds: vec![
-                        quote!( #ty:
-                            ::std::str::FromStr + ::std::marker::Send + 'static
-                        ),
-                        quote!( <#ty as ::std::str::FromStr>::Err:
-                            ::std::error::Error + ::std::marker::Sync + ::std::marker::Send + 'static
-                        ),
-                    ],
-                },
-                FieldKind::QueryParams => Bounds {
-                    addl_ty_params: Vec::new(),
-                    impl_bounds: vec![quote!( #ty:
-                        ::hyperdrive::serde::de::DeserializeOwned +
+                FieldKind::PathSegment => vec![
+                    quote!( #ty:
+                        ::std::str::FromStr + ::std::marker::Send + 'static
+                    ),
+                    quote!( <#ty as ::std::str::FromStr>::Err:
+                        ::std::error::Error + ::std::marker::Sync + ::std::marker::Send + 'static
+                    ),
+                ],
+                FieldKind::QueryParams => vec![quote!( #ty:
+                    ::hyperdrive::serde::de::DeserializeOwned +
+                    ::std::marker::Send +
+                    'static
+                )],
+                FieldKind::Body => vec![
+                    quote!( #ty: ::hyperdrive::FromBody + ::std::marker::Send + 'static ),
+                    quote!( #context: AsRef<<#ty as ::hyperdrive::FromBody>::Context> ),
+                    quote!( <#ty as ::hyperdrive::FromBody>::Result: ::std::marker::Send + 'static ),
+                    quote!(
+                        <<#ty as ::hyperdrive::FromBody>::Result as
+                            ::hyperdrive::futures::IntoFuture>::Future:
+                        ::std::marker::Send + 'static
+                    ),
+                ],
+                FieldKind::Guard => vec![
+                    quote!( #ty: ::hyperdrive::Guard + ::std::marker::Send + 'static ),
+                    quote!( #context: AsRef<<#ty as ::hyperdrive::Guard>::Context> ),
+                    quote!( <#ty as ::hyperdrive::Guard>::Result: ::std::marker::Send + 'static ),
+                    quote!(
+                        <<#ty as ::hyperdrive::Guard>::Result as
+                            ::hyperdrive::futures::IntoFuture>::Future:
+                        ::std::marker::Send + 'static
+                    ),
+                ],
+                FieldKind::Forward => vec![
+                    // FIXME: support `AsRef` conversion here too
+                    quote!( #ty:
+                        ::hyperdrive::FromRequest<Context=#context> +
                         ::std::marker::Send +
                         'static
-                    )],
-                },
-                FieldKind::Body => {
-                    let frombody_context = mkty("FromBody_Context");
-                    let frombody_result = mkty("FromBody_Result");
-                    let frombody_result_future = mkty("FromBody_Result_Future");
-                    Bounds {
-                        addl_ty_params: Vec::new(),
-                        impl_bounds: vec![
-                            quote!( #ty:
-                                ::hyperdrive::FromBody<
-                                    Context=#frombody_context,
-                                    Result=#frombody_result,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                            quote!( #context: AsRef<#frombody_context> ),
-                            // better implied bounds plz
-                            quote!( #frombody_context:
-                                ::hyperdrive::RequestContext
-                            ),
-                            quote!( #frombody_result:
-                                ::hyperdrive::futures::IntoFuture<
-                                    Item=#ty,
-                                    Error=::hyperdrive::BoxedError,
-                                    Future=#frombody_result_future,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                            quote!( #frombody_result_future:
-                                ::hyperdrive::futures::Future<
-                                    Item=#ty,
-                                    Error=::hyperdrive::BoxedError,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                        ],
-                    }
-                },
-                FieldKind::Guard => {
-                    let guard_context = mkty("Guard_Context");
-                    let guard_result = mkty("Guard_Result");
-                    let guard_result_future = mkty("Guard_Result_Future");
-                    Bounds {
-                        addl_ty_params: Vec::new(),
-                        impl_bounds: vec![
-                            quote!( #ty:
-                                ::hyperdrive::Guard<
-                                    Context=#guard_context,
-                                    Result=#guard_result,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                            quote!( #context: AsRef<#guard_context> ),
-                            // better implied bounds plz
-                            quote!( #guard_context:
-                                ::hyperdrive::RequestContext
-                            ),
-                            quote!( #guard_result:
-                                ::hyperdrive::futures::IntoFuture<
-                                    Item=#ty,
-                                    Error=::hyperdrive::BoxedError,
-                                    Future=#guard_result_future,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                            quote!( #guard_result_future:
-                                ::hyperdrive::futures::Future<
-                                    Item=#ty,
-                                    Error=::hyperdrive::BoxedError,
-                                > +
-                                ::std::marker::Send +
-                                'static
-                            ),
-                        ],
-                    }
-                },
-                FieldKind::Forward => Bounds {
-                    addl_ty_params: Vec::new(),
-                    impl_bounds: vec![
-                        // FIXME: support `AsRef` conversion here too
-                        quote!( #ty:
-                            ::hyperdrive::FromRequest<Context=#context> +
-                            ::std::marker::Send +
-                            'static
-                        ),
-                    ],
-                },
+                    ),
+                ],
             }
         })
-        .collect();
-
-    bounds.addl_ty_params.extend(ty_params);
-    bounds
+        .collect()
 }
 
 /// Generates all the code needed to build an enum variant from a matching
-- 
2.43.0


From 5c35e162a24c4eb078172c03b19600c3d6d898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 13/16] fix: reject misplaced and malformed attributes on
 structs

---
 derive/src/from_request/parse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 64f5471..f524516 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -139,10 +139,11 @@ impl VariantData {
                         &list.nested.iter().collect::<Vec<_>>(),
                     ));
                 }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
-                }
-                _ => {}
+                _ => panic!(
+                    "`#[{}]` is not valid on {}",
+                    meta.name(),
+                    if is_struct { "structs" } else { "enum variants" }
+                ),
             }
         }
 
-- 
2.43.0


From 61592b65debde48336e67ae83b38ca9ac5f60cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 14/16] fix: accept fields that are raw identifiers

---
 derive/src/from_request/mod.rs   | 26 ++++++++++++++++----------
 derive/src/from_request/parse.rs | 25 ++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e76e7bb..bb96e4b 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -521,6 +521,13 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Vec<Token
         .collect()
 }
 
+/// Returns the name of the variable that holds the value of field `name`.
+fn field_variable(name: &Ident) -> Ident {
+    let name = name.to_string();
+    let name = name.trim_start_matches("r#");
+    Ident::new(&format!("fld_{}", name), Span::call_site())
+}
+
 /// Generates all the code needed to build an enum variant from a matching
 /// request.
 ///
@@ -560,7 +567,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -600,7 +607,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -618,12 +625,11 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     // Construct the final value from the `fld_X` variables
     let construct = variant.construct(|field, index| {
-        let name = if let Some(ident) = &field.ident {
-            ident.to_string()
+        if let Some(ident) = &field.ident {
+            field_variable(ident)
         } else {
-            index.to_string()
-        };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+            Ident::new(&format!("fld_{}", index), Span::call_site())
+        }
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -632,7 +638,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -643,7 +649,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -660,7 +666,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(&guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index f524516..e81b92a 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -3,7 +3,7 @@ use indexmap::{map::Entry, IndexMap};
 use proc_macro2::{Ident, Span};
 use regex::Regex;
 use std::{fmt, slice};
-use syn::{Attribute, Field, Lit, Meta, NestedMeta};
+use syn::{Attribute, Field, Fields, Lit, Meta, NestedMeta};
 use synstructure::VariantAst;
 
 // Attributes need to be kept in sync with lib.rs
@@ -134,10 +134,10 @@ impl VariantData {
             };
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
-                    routes.push(Route::parse(
-                        meta.name(),
-                        &list.nested.iter().collect::<Vec<_>>(),
-                    ));
+                    let mut route =
+                        Route::parse(meta.name(), &list.nested.iter().collect::<Vec<_>>());
+                    route.path.resolve_fields(ast.fields);
+                    routes.push(route);
                 }
                 _ => panic!(
                     "`#[{}]` is not valid on {}",
@@ -523,6 +523,21 @@ impl RoutePath {
         }
     }
 
+    /// Makes the placeholders refer to the fields of the same name, which might be raw identifiers
+    /// (`{type}` refers to the field `r#type`).
+    fn resolve_fields(&mut self, fields: &Fields) {
+        for placeholder in &mut self.placeholders {
+            let name = placeholder.to_string();
+            let field = fields
+                .iter()
+                .filter_map(|field| field.ident.as_ref())
+                .find(|ident| ident.to_string().trim_start_matches("r#") == name);
+            if let Some(ident) = field {
+                *placeholder = ident.clone();
+            }
+        }
+    }
+
     /// Returns `true` if `self` and `other` match the exact same set of paths.
     fn matches_same_paths(&self, other: &Self) -> bool {
         self.regex.as_str() == other.regex.as_str()
-- 
2.43.0


From 66675ceee158112d60735672409b6c7d89178930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 15/16] fix: accept variants named Context and Future

---
 derive/src/from_request/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index bb96e4b..cf1a47c 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -420,8 +420,8 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
             fn from_request_and_body(
                 request: &Arc<http::Request<()>>,
                 body: hyper::Body,
-                context: Self::Context,
-            ) -> Self::Future {
+                context: #context,
+            ) -> DefaultFuture<Self, BoxedError> {
                 // Step 0: `Variant` has all variants of the input enum that have a route attribute
                 // but without any data.
                 enum Variant {
-- 
2.43.0


From c676d4fb7dc1893f4f6eeeb79f347eaa49936a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 16/16] fix: accept derives next to modules named core or std

---
 derive/src/from_request/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index cf1a47c..0e627b5 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -409,9 +409,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
         // Otherwise the calling crate could override this.
-        use core::convert::AsRef;
-        use core::str::FromStr;
-        use std::sync::Arc;
+        use ::std::convert::AsRef;
+        use ::std::str::FromStr;
+        use ::std::sync::Arc;
 
         gen impl FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
@@ -675,7 +675,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }
 
     quote! {{
-        use std::str::FromStr;
+        use ::std::str::FromStr;
 
         #placeholders
 
-- 
2.43.0

