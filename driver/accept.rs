//# enum-in-function
pub fn f() { #[derive(hyperdrive::FromRequest)] enum R { #[get("/")] A, #[post("/{x}")] B { x: u8 } } fn need<T: hyperdrive::FromRequest>() {} need::<R>(); }
//# struct-in-function
pub fn f() { #[derive(hyperdrive::FromRequest)] #[get("/{x}")] struct R { x: u8 } fn need<T: hyperdrive::FromRequest>() {} need::<R>(); }
//# in-block-expression
pub fn f() -> u8 { let x = { #[derive(hyperdrive::FromRequest)] #[get("/")] struct R; 5 }; x }
//# in-impl-method
pub struct S; impl S { pub fn f(&self) { #[derive(hyperdrive::FromRequest)] enum R { #[get("/{id}")] A { id: u8 } } } }
//# nested-modules
pub mod a { pub mod b { #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A, #[get("/n")] N { #[forward] i: super::Inner } } } #[derive(hyperdrive::FromRequest)] #[get("/n")] pub struct Inner; }
//# forbid-unsafe
#![forbid(unsafe_code)]
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# renamed-trait-import
use hyperdrive::FromRequest as Decode;
#[derive(Decode)] pub enum R { #[get("/")] A }
//# glob-imports
use hyperdrive::*; use std::fmt::*;
#[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# shadowed-crates
pub mod futures {} pub mod http {} pub mod hyper {} pub mod std {} pub mod core {} pub mod regex {} pub mod lazy_static {} pub mod serde {} pub mod hyperdrive {}
#[derive(::hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 }, #[get("/q/")] Q { #[query_params] q: Vec<(u8, u8)>, #[forward] f: ::vcore::Probe<::hyperdrive::NoContext> } }
//# from-macro-ty
macro_rules! mk { ($n:ident, $t:ty, $u:ty) => { #[derive(hyperdrive::FromRequest)] pub enum $n { #[get("/{x}")] A { x: $t }, #[post("/")] B { #[body] b: $u } } } }
mk!(R, u8, ::hyperdrive::body::Json<String>);
//# from-macro-ident
macro_rules! mk { ($n:ident, $v:ident, $f:ident, $($w:ident),*) => { #[derive(hyperdrive::FromRequest)] pub enum $n { #[get("/{x}")] $v { $f: u8 }, $(#[allow(dead_code)] $w,)* } } }
mk!(R, A, x, B, C);
//# from-macro-meta
macro_rules! mk { ($($(#[$a:meta])* $v:ident),*) => { #[derive(hyperdrive::FromRequest)] pub enum R { $($(#[$a])* $v),* } } }
mk!(#[get("/")] #[post("/a")] A, #[allow(dead_code)] B, #[get("/b")] C);
//# from-macro-tt
macro_rules! mk { ($($t:tt)*) => { #[derive(hyperdrive::FromRequest)] $($t)* } }
mk!(pub enum R { #[get("/{x}")] A { x: u8 } });
//# from-macro-literal
macro_rules! mk { ($n:ident, $p:literal) => { #[derive(hyperdrive::FromRequest)] pub enum $n { #[get($p)] A } } }
mk!(R, "/a"); mk!(S, "/b");
//# from-macro-context-ty
macro_rules! mk { ($t:ty, $p:path) => { #[derive(hyperdrive::FromRequest)] #[context($t)] pub enum R { #[get("/")] A } #[derive(hyperdrive::FromRequest)] #[context($p)] #[get("/")] pub struct S; } }
mk!(hyperdrive::NoContext, hyperdrive::NoContext);
//# from-macro-vis
macro_rules! mk { ($v:vis $n:ident) => { #[derive(hyperdrive::FromRequest)] #[get("/{x}")] $v struct $n { $v x: u8 } } }
mk!(pub R); mk!(pub(crate) S); mk!(T);
//# macro-in-type
macro_rules! ty { ($($t:tt)*) => { $($t)* } }
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: ty!(u8), #[body] b: ty!(hyperdrive::body::Json<String>) } }
//# visibilities
#[derive(hyperdrive::FromRequest)] #[get("/{x}/{y}/{z}")] pub(in crate) struct R { pub(super) x: u8, pub(self) y: u8, z: u8 } #[derive(hyperdrive::FromRequest)] #[get("/")] pub(crate) struct S; #[derive(hyperdrive::FromRequest)] enum T { #[get("/")] A }
//# empty-braces
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/a")] A {}, #[get("/b")] B, } #[derive(hyperdrive::FromRequest)] #[get("/")] pub struct S {}
//# unused-variants-of-every-shape
pub struct X; #[derive(hyperdrive::FromRequest)] pub enum R<T: Send + 'static> { #[get("/a")] A {}, B(X), C(X, u8), D { x: X, t: T }, E, F() , G(&'static str), H(Box<dyn Fn() + Send>) }
//# lots-of-variants
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/0")] A0, #[get("/1")] A1, #[get("/2")] A2, #[get("/3")] A3, #[get("/4")] A4, #[get("/5")] A5, #[get("/6")] A6, #[get("/7")] A7, #[get("/8")] A8, #[get("/9")] A9, #[get("/10/{x}")] B0 { x: u8 }, #[get("/11/{x}")] B1 { x: u8 }, #[get("/12/{x}")] B2 { x: u8 }, #[get("/13/{x}")] B3 { x: u8 }, #[get("/14/{x}")] B4 { x: u8 }, #[get("/15/{x}")] B5 { x: u8 } }
//# all-methods
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] #[head("/")] #[post("/")] #[put("/")] #[delete("/")] #[connect("/")] #[options("/")] #[trace("/")] #[patch("/")] A, #[options("*")] B }
//# discriminants
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/a")] A = 5, #[get("/b")] B = -1, C }
//# repr
#[derive(hyperdrive::FromRequest)] #[repr(u8)] pub enum R { #[get("/a")] A, #[get("/b")] B }
//# cfg-removed
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/a")] A { #[cfg(any())] x: Nope, #[cfg(all())] y: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> }, #[cfg(any())] #[get("/a")] B }
//# cfg-attr
#[derive(hyperdrive::FromRequest)] pub enum R { #[cfg_attr(all(), get("/a"))] #[cfg_attr(any(), get("/b"))] A { #[cfg_attr(all(), query_params)] q: Vec<(String, String)> } }
//# other-derives
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, hyperdrive::FromRequest)] pub enum R { #[get("/a/{x}")] A { x: u8 }, B } #[derive(Default, hyperdrive::FromRequest, Copy, Clone)] #[get("/")] pub struct S;
//# serde-attributes
#[derive(serde::Serialize, serde::Deserialize, hyperdrive::FromRequest)] #[serde(rename_all = "lowercase", tag = "t")] pub enum R { #[serde(rename = "zz")] #[get("/a/{x}")] A { #[serde(default, rename = "y")] x: u8 }, #[serde(skip)] B }
//# tool-attributes
#[derive(hyperdrive::FromRequest)] #[rustfmt::skip] #[clippy::msrv = "1.0"] #[allow(clippy::all)] pub enum R { #[rustfmt::skip] #[get("/a")] #[deprecated(note = "x")] A { #[allow(clippy::x)] #[rustfmt::skip] g: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> } }
//# doc-attributes
/** Block */ #[doc(alias = "x")] #[doc = "y"] #[derive(hyperdrive::FromRequest)] #[doc = include_str!("lib.rs")] pub enum R { /** A */ #[get("/")] /// B
A { /** C */ #[doc = concat!("a", "b")] x: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> } }
//# raw-string-route
#[derive(hyperdrive::FromRequest)] pub enum R { #[get(r"/a\d")] A, #[get(r#"/"quoted""#)] B, #[get("/\u{e9}")] C, #[get("/a\
    b")] D, #[get("/tab\tx")] E }
//# trailing-comma-route
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/a",)] A, #[get ( "/b" )] B, }
//# generic-bounds
#[derive(hyperdrive::FromRequest)] pub enum R<T: Clone + Send, U> where U: std::fmt::Debug + Send { #[get("/{t}")] A { t: T }, #[get("/{u}/x")] B { u: U } }
//# generic-defaults
#[derive(hyperdrive::FromRequest)] pub enum R<T = u8, U: Send + 'static = Vec<T>> where T: Send + 'static { #[get("/{t}")] A { t: T }, B(U) }
//# generic-nested-in-type
#[derive(hyperdrive::FromRequest)] pub enum R<T> where T: serde::de::DeserializeOwned + Send + 'static { #[post("/")] A { #[body] t: hyperdrive::body::Json<T> }, #[get("/q")] B { #[query_params] q: Vec<(T, T)> } }
//# generic-struct
#[derive(hyperdrive::FromRequest)] #[post("/{x}")] pub struct R<X, B, Q, G> { x: X, #[body] b: B, #[query_params] q: Q, g: G }
//# generic-forward
#[derive(hyperdrive::FromRequest)] pub enum R<I> { #[get("/a")] A, F { #[forward] i: I } } #[derive(hyperdrive::FromRequest)] pub struct S<I> { #[forward] i: I }
//# generic-names
#[derive(hyperdrive::FromRequest)] pub enum R<F, Fut, E, S, Q, Ctx, Context, Future, Res, Request, B> where B: Sized { #[get("/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}/{j}/{k}")] A { a: F, b: Fut, c: E, d: S, e: Q, f: Ctx, g: Context, h: Future, i: Res, j: Request, k: B } }
//# generic-unused-parameter
#[derive(hyperdrive::FromRequest)] pub enum R<T: Send + 'static> { #[get("/")] A { g: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> }, B(std::marker::PhantomData<T>) }
//# const-generic-parameter
#[derive(hyperdrive::FromRequest)] pub enum R<const N: usize> { #[get("/")] A, B([u8; N]) }
//# const-generic-literal
pub struct G<const N: usize>; impl std::str::FromStr for G<5> { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(G) } }
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: G<5> } }
//# const-generic-block
pub struct G<const N: usize>; impl std::str::FromStr for G<5> { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(G) } }
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: G<{ 5 }> } }
//# const-generic-alias
pub struct G<const N: usize>; impl std::str::FromStr for G<5> { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(G) } } pub type G5 = G<5>;
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: G5 } }
//# array-length-block
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A, B([u8; { 3 }]) }
//# field-types-of-every-syntax
pub struct W<T: ?Sized>(std::marker::PhantomData<T>); impl<T: ?Sized> std::str::FromStr for W<T> { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(W(std::marker::PhantomData)) } } pub trait As { type O; } impl As for u8 { type O = u16; }
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}")] A { a: W<dyn Fn(u8) -> u8 + Send + Sync>, b: W<[u8; 2 + 3]>, c: W<&'static [u8]>, d: W<fn(u8, &str) -> u8>, e: <u8 as As>::O, f: W<(u8, (u16,))>, g: W<fn(*const u8)>, h: (u8) }, X(W<dyn for<'a> Fn(&'a u8) -> &'a u8 + Send>) , Y { y: impl_::T } } pub mod impl_ { pub struct T; }
//# never-type-in-unused-variant
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A, B(fn() -> !) }
//# dyn-context
#[derive(hyperdrive::FromRequest)] #[context(C<Box<dyn Fn(u8) -> u8 + Send + Sync>>)] pub enum R { #[get("/")] A } #[derive(hyperdrive::RequestContext)] pub struct C<T> { pub t: T }
//# context-self-module
pub mod m { #[derive(hyperdrive::RequestContext)] pub struct C; } use self::m as n;
#[derive(hyperdrive::FromRequest)] #[context(n::C)] pub enum R { #[get("/")] A } #[derive(hyperdrive::FromRequest)] #[context(self::m::C)] pub enum S { #[get("/")] A } #[derive(hyperdrive::FromRequest)] #[context(<u8 as T>::C)] pub enum U { #[get("/")] A } pub trait T { type C; } impl T for u8 { type C = m::C; }
//# context-of-type-parameter
#[derive(hyperdrive::FromRequest)] #[context(T)] pub enum R<T> where T: hyperdrive::RequestContext + Send + 'static { #[get("/{x}")] A { x: u8 }, B(std::marker::PhantomData<T>) }
//# context-order-of-attributes
#[derive(hyperdrive::FromRequest)] #[get("/")] #[context(hyperdrive::NoContext)] #[post("/")] pub struct R; 
//# context-named-NoContext
#[derive(hyperdrive::RequestContext)] pub struct NoContext; #[derive(hyperdrive::FromRequest)] #[context(NoContext)] pub enum R { #[get("/")] A }
//# item-named-Future
#[derive(hyperdrive::FromRequest)] pub enum Future { #[get("/")] A }
//# names-of-the-trait-items
#[derive(hyperdrive::FromRequest)] pub struct Context { #[forward] i: Outcome } #[derive(hyperdrive::FromRequest)] #[get("/{Future}/{Context}")] #[allow(non_snake_case)] pub struct Outcome { Future: u8, Context: u8 } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] Future, #[get("/C")] Context, #[get("/R")] Outcome { #[forward] i: ::vcore::Probe<::hyperdrive::NoContext> }, #[get("/S")] Self_ }
//# prelude-variant-names
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/s")] Some, #[get("/n")] None, #[get("/o/{x}")] Ok { x: u8 }, #[get("/e")] Err, #[get("/i")] Into, #[get("/b")] Box, #[get("/st")] String }
//# variant-named-like-type
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/a")] R, #[get("/b")] R2 }
//# keyword-like-names
#[derive(hyperdrive::FromRequest)] #[allow(non_camel_case_types)] pub enum union { #[get("/{default}/{auto}/{dynn}")] dynn { default: u8, auto: u8, dynn: u8 }, #[get("/")] auto }
//# names-of-locals
#[derive(hyperdrive::FromRequest)] pub enum R { #[post("/{request}/{context}/{req}/{ctx}/{method}/{path}/{uri}/{captures}/{query}/{e}/{err}/{f}/{x}/{res}/{result}/{fut}/{future}/{value}/{v}")] A { request: u8, context: u8, req: u8, ctx: u8, method: u8, path: u8, uri: u8, captures: u8, query: u8, e: u8, err: u8, f: u8, x: u8, res: u8, result: u8, fut: u8, future: u8, value: u8, v: u8, #[body] body: hyperdrive::body::Json<u8>, #[query_params] query_params: Vec<(u8, u8)>, guard: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> } }
//# raw-identifier-type
#[derive(hyperdrive::FromRequest)] #[allow(non_camel_case_types)] pub enum r#type { #[get("/")] r#fn, #[get("/a")] A }
//# raw-identifier-field
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A { r#type: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> } }
//# raw-identifier-body
#[derive(hyperdrive::FromRequest)] pub enum R { #[post("/")] A { #[body] r#type: ::hyperdrive::body::Json<u8> } }
//# raw-identifier-query
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A { #[query_params] r#type: Vec<(String, String)> } }
//# raw-identifier-forward
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A { #[forward] r#type: ::vcore::Probe<::hyperdrive::NoContext> } }
//# raw-identifier-segment
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{type}")] A { r#type: u8 } }
//# raw-identifier-unused-variant
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A, B { r#type: u8 } }
//# unicode-identifiers
#[derive(hyperdrive::FromRequest)] #[allow(non_camel_case_types, uncommon_codepoints)] pub enum Größe { #[get("/a")] Été { größe: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext>, #[query_params] ü: Vec<(String, String)> }, #[get("/b")] Ж }
//# type-named-Error
pub struct Error; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8, #[query_params] q: Vec<(u8, u8)> } }
//# type-named-Variant
pub struct Variant; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 }, #[get("/")] B, C(Variant) }
//# type-named-Option
pub struct Option; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# type-named-Vec
pub struct Vec; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# type-named-Regex
pub struct Regex; pub struct RegexSet; pub struct RegexMap; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# type-named-Arc
pub struct Arc; #[derive(hyperdrive::FromRequest)] pub enum R { #[post("/{x}")] A { x: u8, #[body] b: hyperdrive::body::Json<u8> } }
//# type-named-Guard
pub struct Guard; pub struct FromBody; pub struct FromRequest; #[derive(hyperdrive::FromRequest)] pub enum R { #[post("/{x}")] A { x: u8, g: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext>, #[body] b: hyperdrive::body::Json<u8> } }
//# type-named-Future
pub struct Future; pub struct IntoFuture; pub struct Poll; pub struct Async; #[derive(hyperdrive::FromRequest)] pub enum R { #[post("/{x}")] A { x: u8, #[body] b: hyperdrive::body::Json<u8> } }
//# type-named-Request
pub struct Request; pub struct Method; pub struct Body; pub struct Uri; pub struct StatusCode; pub struct Response; pub struct HttpError; pub struct BoxedError; pub struct DefaultFuture; pub struct NoContext; #[derive(hyperdrive::FromRequest)] pub enum R { #[post("/{x}")] A { x: u8, #[body] b: hyperdrive::body::Json<u8> } }
//# type-named-Box
pub struct Box; #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 } }
//# field-type-named-Error
pub struct Error; impl std::str::FromStr for Error { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Error) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Error } }
//# field-type-named-Variant
pub struct Variant; impl std::str::FromStr for Variant { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Variant) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Variant } }
//# field-type-named-Option
pub struct Option; impl std::str::FromStr for Option { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Option) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Option } }
//# field-type-named-Vec
pub struct Vec; impl std::str::FromStr for Vec { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Vec) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Vec } }
//# field-type-named-Regex
pub struct Regex; impl std::str::FromStr for Regex { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Regex) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Regex } }
//# field-type-named-Arc
pub struct Arc; impl std::str::FromStr for Arc { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Arc) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Arc } }
//# field-type-named-Guard
pub struct Guard; impl std::str::FromStr for Guard { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Guard) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Guard, g: ::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext> } }
//# field-type-named-Request
pub struct Request; impl std::str::FromStr for Request { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Request) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Request } }
//# field-type-named-Method
pub struct Method; impl std::str::FromStr for Method { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(Method) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: Method } }
//# field-type-named-HttpResult
pub struct HttpResult; impl std::str::FromStr for HttpResult { type Err = std::num::ParseIntError; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(HttpResult) } } #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: HttpResult } }
//# item-named-Error
#[derive(hyperdrive::FromRequest)] pub enum Error { #[get("/{x}")] A { x: u8 } }
//# item-named-Variant
#[derive(hyperdrive::FromRequest)] pub enum Variant { #[get("/{x}")] A { x: u8 } }
//# item-named-Request
#[derive(hyperdrive::FromRequest)] pub struct Request { #[forward] i: ::vcore::Probe<::hyperdrive::NoContext> }
//# item-named-Guard
#[derive(hyperdrive::FromRequest)] pub enum Guard { #[get("/{x}")] A { x: u8 } }
//# item-named-Option
#[derive(hyperdrive::FromRequest)] pub enum Option { #[get("/{x}")] A { x: u8, #[query_params] q: Vec<(u8, u8)> } }
//# self-in-field-types
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A, B(Box<R>), C { v: Vec<Self> } } 
//# recursive-through-box
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 }, B(Option<Box<Self>>) }
//# routes-with-shared-shapes
#[derive(hyperdrive::FromRequest)] pub enum R { #[get("/{a}")] A { a: u8 }, #[post("/{b}")] B { b: String }, #[put("/{c}")] #[delete("/{c}")] C { c: u64 }, #[head("/{d}")] D { d: char } }
//# context-types
#[derive(hyperdrive::RequestContext)] pub struct A; #[derive(hyperdrive::RequestContext)] pub struct B(u8, #[as_ref] u16); #[derive(hyperdrive::RequestContext)] pub enum C { A, B(u8) } #[derive(hyperdrive::RequestContext)] pub struct D<T, const N: usize> { t: [T; N] }
//# raw-identifier-keywords
#[derive(hyperdrive::FromRequest)] #[get("/{as}")] pub struct S0 { pub r#as: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{async}")] pub struct S1 { pub r#async: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{await}")] pub struct S2 { pub r#await: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{break}")] pub struct S3 { pub r#break: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{const}")] pub struct S4 { pub r#const: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{continue}")] pub struct S5 { pub r#continue: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{dyn}")] pub struct S6 { pub r#dyn: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{else}")] pub struct S7 { pub r#else: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{enum}")] pub struct S8 { pub r#enum: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{extern}")] pub struct S9 { pub r#extern: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{false}")] pub struct S10 { pub r#false: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{fn}")] pub struct S11 { pub r#fn: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{for}")] pub struct S12 { pub r#for: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{if}")] pub struct S13 { pub r#if: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{impl}")] pub struct S14 { pub r#impl: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{in}")] pub struct S15 { pub r#in: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{let}")] pub struct S16 { pub r#let: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{loop}")] pub struct S17 { pub r#loop: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{match}")] pub struct S18 { pub r#match: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{mod}")] pub struct S19 { pub r#mod: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{move}")] pub struct S20 { pub r#move: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{mut}")] pub struct S21 { pub r#mut: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{pub}")] pub struct S22 { pub r#pub: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{ref}")] pub struct S23 { pub r#ref: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{return}")] pub struct S24 { pub r#return: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{static}")] pub struct S25 { pub r#static: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{struct}")] pub struct S26 { pub r#struct: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{trait}")] pub struct S27 { pub r#trait: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{true}")] pub struct S28 { pub r#true: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{try}")] pub struct S29 { pub r#try: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{type}")] pub struct S30 { pub r#type: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{unsafe}")] pub struct S31 { pub r#unsafe: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{use}")] pub struct S32 { pub r#use: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{where}")] pub struct S33 { pub r#where: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{while}")] pub struct S34 { pub r#while: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{abstract}")] pub struct S35 { pub r#abstract: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{become}")] pub struct S36 { pub r#become: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{box}")] pub struct S37 { pub r#box: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{do}")] pub struct S38 { pub r#do: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{final}")] pub struct S39 { pub r#final: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{macro}")] pub struct S40 { pub r#macro: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{override}")] pub struct S41 { pub r#override: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{priv}")] pub struct S42 { pub r#priv: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{typeof}")] pub struct S43 { pub r#typeof: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{unsized}")] pub struct S44 { pub r#unsized: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{virtual}")] pub struct S45 { pub r#virtual: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{yield}")] pub struct S46 { pub r#yield: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{gen}")] pub struct S47 { pub r#gen: u8 }
//# soft-keywords
#[derive(hyperdrive::FromRequest)] #[get("/{auto}")] pub struct S0 { pub auto: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{default}")] pub struct S1 { pub default: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{union}")] pub struct S2 { pub union: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{raw}")] pub struct S3 { pub raw: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{safe}")] pub struct S4 { pub safe: u8 }
#[derive(hyperdrive::FromRequest)] #[get("/{macro_rules}")] pub struct S5 { pub macro_rules: u8 }
//# raw-identifier-not-a-keyword
#[derive(hyperdrive::FromRequest)] #[get("/{id}")] pub struct S { pub r#id: u8 }
//# raw-identifier-rest
#[derive(hyperdrive::FromRequest)] #[get("/x/{type...}")] #[post("/y/{type}")] pub struct S { pub r#type: String }
