//! Instrumented building blocks used by the generated types.

use crate::session::*;
use futures::{Async, Future, Poll, Stream};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use serde::Deserialize;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::str::FromStr;
use std::sync::Arc;

pub use serde_json::Value as JsonValue;

// ---------------------------------------------------------------- values

/// A decoded value, as seen by the monitors.
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Leaf(String),
    Node(String, Vec<(String, Node)>),
}

impl Node {
    pub fn node(tag: &str, fields: Vec<(&str, Node)>) -> Node {
        Node::Node(
            tag.to_string(),
            fields.into_iter().map(|(n, v)| (n.to_string(), v)).collect(),
        )
    }
    pub fn leaf<D: fmt::Debug>(d: &D) -> Node {
        Node::Leaf(format!("{:?}", d))
    }
    pub fn text(&self) -> String {
        match self {
            Node::Leaf(s) => s.clone(),
            Node::Node(t, f) => {
                let mut s = format!("{}{{", t);
                for (i, (n, v)) in f.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    s.push_str(n);
                    s.push_str(": ");
                    s.push_str(&v.text());
                }
                s.push('}');
                s
            }
        }
    }
}

pub trait Dump {
    fn dump(&self) -> Node;
}

macro_rules! dump_debug {
    ($($t:ty),* $(,)?) => { $( impl Dump for $t { fn dump(&self) -> Node { Node::leaf(self) } } )* };
}
dump_debug!(
    String, u8, u32, i64, u128, bool, char, std::net::IpAddr, std::path::PathBuf, Even, NoDigit, Upper, Never,
    Vec<(String, String)>, BTreeMap<String, String>, QS1, QS2, QS3, QNew, Vec<(String, u16)>, (), Inert,
    QFlat, QTrans, Vec<(QE, String)>, BTreeMap<u8, f64>, Spy0, Spy1, Spy2, Spy3, [(String, String); 2],
);
impl<T: fmt::Debug> Dump for Option<T> {
    fn dump(&self) -> Node {
        Node::leaf(self)
    }
}
impl<T: fmt::Debug + serde::de::DeserializeOwned + Send + 'static> Dump for hyperdrive::body::Json<T> {
    fn dump(&self) -> Node {
        Node::leaf(&self.0)
    }
}
impl<T: fmt::Debug + serde::de::DeserializeOwned + Send + 'static> Dump for hyperdrive::body::HtmlForm<T> {
    fn dump(&self) -> Node {
        Node::leaf(&self.0)
    }
}

/// Implements none of the decoding traits.
#[derive(Debug)]
pub struct Inert;

// ---------------------------------------------------------------- segments

#[derive(Debug, Clone, PartialEq)]
pub struct SegErr(pub String);
impl fmt::Display for SegErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "bad segment {:?}", self.0)
    }
}
impl std::error::Error for SegErr {}

/// An error's text with the name of its type, for the types that conversions and decoders have.
pub fn source_text(e: &(dyn std::error::Error + 'static)) -> String {
    macro_rules! try_types {
        ($($t:ty)*) => {
            $(if e.is::<$t>() {
                return format!("{}: {}", stringify!($t).replace(' ', ""), e);
            })*
        };
    }
    try_types!(
        SegErr std::num::ParseIntError std::str::ParseBoolError std::char::ParseCharError std::net::AddrParseError
        serde::de::value::Error serde_json::Error PlanErr hyperdrive::Error hyper::Error
    );
    format!("other: {}", e)
}

/// Can take any role, so that a declaration which gives it two does not fail for the lack of an impl.
#[derive(Debug, Clone, PartialEq, serde::Deserialize)]
pub struct Every(pub String);
impl FromStr for Every {
    type Err = SegErr;
    fn from_str(s: &str) -> Result<Self, SegErr> {
        Ok(Every(s.into()))
    }
}
impl Guard for Every {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result {
        Ok(Every("guard".into()))
    }
}
impl FromBody for Every {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result {
        Ok(Every("body".into()))
    }
}
impl FromRequest for Every {
    type Context = NoContext;
    type Future = futures::future::FutureResult<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: NoContext) -> Self::Future {
        futures::future::ok(Every("forward".into()))
    }
}

macro_rules! seg_ty {
    ($name:ident, $s:ident => $cond:expr) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name(pub String);
        impl FromStr for $name {
            type Err = SegErr;
            fn from_str($s: &str) -> Result<Self, SegErr> {
                if $cond {
                    Ok($name($s.to_string()))
                } else {
                    Err(SegErr(format!("{}:{}", stringify!($name), $s)))
                }
            }
        }
    };
}
seg_ty!(Even, s => s.len() % 2 == 0);
seg_ty!(NoDigit, s => !s.bytes().any(|b| b.is_ascii_digit()));
seg_ty!(Upper, s => s.bytes().next().map_or(false, |b| b.is_ascii_uppercase()));
seg_ty!(Never, _s => false);

// ---------------------------------------------------------------- query / body data

#[derive(Debug, Deserialize, PartialEq, Clone)]
pub struct QS1 {
    pub a: u32,
    pub b: String,
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
pub struct QS2 {
    pub a: Option<u8>,
    #[serde(default)]
    pub b: Option<String>,
    #[serde(default)]
    pub flag: bool,
}
#[derive(Debug, Deserialize, PartialEq, Clone, Copy)]
#[serde(rename_all = "lowercase")]
pub enum QE {
    Asc,
    Desc,
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
#[serde(deny_unknown_fields)]
pub struct QS3 {
    pub order: QE,
    #[serde(rename = "page-no")]
    pub page: i16,
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
pub struct QNew(pub QS1);
#[derive(Debug, Deserialize, PartialEq, Clone)]
pub struct QFlat {
    pub page: String,
    #[serde(flatten)]
    pub rest: BTreeMap<String, String>,
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
#[serde(transparent)]
pub struct QTrans(pub QS2);

/// Tells how it was deserialized, whatever it's given.
struct SpyVisitor;
impl<'de> serde::de::Visitor<'de> for SpyVisitor {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything to look at")
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut s = format!("map {:?}", a.size_hint());
        while let Some((k, v)) = a.next_entry::<String, String>()? {
            s += &format!(" {:?}: {:?}", k, v);
        }
        Ok(s)
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut s = format!("seq {:?}", a.size_hint());
        while let Some(x) = a.next_element::<(String, String)>()? {
            s += &format!(" {:?}", x);
        }
        Ok(s)
    }
    fn visit_unit<E>(self) -> Result<String, E> {
        Ok("unit".into())
    }
    fn visit_newtype_struct<D: serde::de::Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_any(SpyVisitor).map(|x| format!("newtype {}", x))
    }
    fn visit_str<E>(self, s: &str) -> Result<String, E> {
        Ok(format!("str {:?}", s))
    }
    fn visit_bytes<E>(self, s: &[u8]) -> Result<String, E> {
        Ok(format!("bytes {:?}", s))
    }
}
macro_rules! spies {
    ($($name:ident $d:ident => $how:expr;)*) => { $(
        #[derive(Debug, PartialEq, Clone)]
        pub struct $name(pub String);
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: serde::de::Deserializer<'de>>($d: D) -> Result<Self, D::Error> {
                let human = $d.is_human_readable();
                let r: Result<String, D::Error> = $how;
                r.map(|s| $name(format!("{} {}", human, s)))
            }
        }
    )* };
}
spies! {
    Spy0 d => d.deserialize_any(SpyVisitor);
    Spy1 d => d.deserialize_newtype_struct("Spy1", SpyVisitor);
    Spy2 d => d.deserialize_seq(SpyVisitor);
    Spy3 d => d.deserialize_unit(SpyVisitor);
}

#[derive(Debug, Deserialize, PartialEq, Clone)]
pub enum JE {
    Unit,
    New(u8),
    Tup(i32, String),
    Rec { f: f32 },
}
/// Any well-formed JSON.
#[derive(Debug, PartialEq, Clone)]
pub struct JIgn;
impl<'de> Deserialize<'de> for JIgn {
    fn deserialize<D: serde::de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_ignored_any(serde::de::IgnoredAny).map(|_| JIgn)
    }
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
#[serde(deny_unknown_fields)]
pub struct FNum {
    pub x: u8,
    pub y: f64,
}

#[derive(Debug, Deserialize, PartialEq, Clone)]
pub struct JS {
    pub a: u32,
    pub b: String,
    #[serde(default)]
    pub c: Vec<i8>,
    pub d: Option<Box<JS>>,
}

// ---------------------------------------------------------------- contexts

pub type Life = Arc<()>;

#[derive(RequestContext, Clone, Debug)]
pub struct SubS {
    pub nonce: u64,
    pub life: Life,
}
#[derive(RequestContext, Clone, Debug)]
pub struct SubT {
    pub nonce: u64,
    pub life: Life,
}
#[derive(RequestContext, Clone, Debug)]
pub struct CtxA {
    pub nonce: u64,
    pub decoy1: SubS,
    #[as_ref]
    pub s: SubS,
    pub decoy2: SubS,
    pub life: Life,
}
#[derive(RequestContext, Clone, Debug)]
pub struct CtxB {
    pub decoy1: CtxA,
    #[as_ref]
    pub a: CtxA,
    pub nonce: u64,
    #[as_ref]
    pub t: SubT,
    pub decoy2: SubT,
    pub life: Life,
}
pub trait TestCtx: RequestContext + Clone + Send + Sync + 'static {
    fn make(nonce: u64, life: &Life) -> Self;
    fn view(&self) -> String;
}
impl TestCtx for NoContext {
    fn make(_: u64, _: &Life) -> Self {
        NoContext
    }
    fn view(&self) -> String {
        "No".into()
    }
}
impl TestCtx for SubS {
    fn make(nonce: u64, life: &Life) -> Self {
        SubS { nonce, life: life.clone() }
    }
    fn view(&self) -> String {
        format!("S{}", self.nonce)
    }
}
impl TestCtx for SubT {
    fn make(nonce: u64, life: &Life) -> Self {
        SubT { nonce, life: life.clone() }
    }
    fn view(&self) -> String {
        format!("T{}", self.nonce)
    }
}
impl TestCtx for CtxA {
    fn make(n: u64, life: &Life) -> Self {
        CtxA {
            nonce: n,
            decoy1: SubS::make(n + 2, life),
            s: SubS::make(n + 1, life),
            decoy2: SubS::make(n + 3, life),
            life: life.clone(),
        }
    }
    fn view(&self) -> String {
        format!("A{}", self.nonce)
    }
}
impl TestCtx for CtxB {
    fn make(n: u64, life: &Life) -> Self {
        CtxB {
            decoy1: CtxA::make(n + 30, life),
            a: CtxA::make(n + 10, life),
            nonce: n,
            t: SubT::make(n + 20, life),
            decoy2: SubT::make(n + 25, life),
            life: life.clone(),
        }
    }
    fn view(&self) -> String {
        format!("B{}", self.nonce)
    }
}

// ---------------------------------------------------------------- requests

pub fn fingerprint<B>(r: &http::Request<B>) -> String {
    let mut h: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in r.headers() {
        h.entry(k.as_str().to_string())
            .or_default()
            .push(v.as_bytes().iter().map(|b| *b as char).flat_map(|c| c.escape_default()).collect());
    }
    let ext = r
        .extensions()
        .get::<SessRef>()
        .map(|s| s.0.id.to_string())
        .unwrap_or_else(|| "missing".into());
    format!(
        "{} {} scheme={:?} auth={:?} {:?} {:?} ext={}",
        r.method(),
        r.uri(),
        r.uri().scheme_part().map(|s| s.as_str().to_string()),
        r.uri().authority_part().map(|s| s.as_str().to_string()),
        r.version(),
        h,
        ext
    )
}

// ---------------------------------------------------------------- guards

#[derive(Debug, Clone)]
pub struct Rec {
    pub kind: &'static str,
    pub id: u32,
    pub serial: usize,
    pub ctx: String,
    pub req: String,
    /// some hold on to the request
    kept: Option<Arc<http::Request<()>>>,
}
impl Rec {
    fn new(s: &Session, kind: &'static str, id: u32, serial: usize, ctx: String, req: &Arc<http::Request<()>>) -> Rec {
        Rec {
            kind,
            id,
            serial,
            ctx,
            req: fingerprint(&**req),
            kept: if (s.id / 3 + serial as u64) % 3 == 0 { Some(req.clone()) } else { None },
        }
    }
    pub fn node(&self) -> Node {
        let now = self.kept.as_ref().map(|r| fingerprint(&**r));
        match &now {
            Some(now) if *now != self.req => rec_node(self.kind, self.id, self.serial, &self.ctx, &format!("{} and later {}", self.req, now)),
            _ => rec_node(self.kind, self.id, self.serial, &self.ctx, &self.req),
        }
    }
}
pub fn rec_node(kind: &str, id: u32, serial: usize, ctx: &str, req: &str) -> Node {
    Node::Node(
        format!("{}{}", kind, id),
        vec![
            ("serial".into(), Node::Leaf(serial.to_string())),
            ("ctx".into(), Node::Leaf(ctx.to_string())),
            ("req".into(), Node::Leaf(req.to_string())),
        ],
    )
}

/// Distinguishes guard types.
pub trait Tag: 'static {
    const N: u32;
}
macro_rules! tags {
    ($($t:ident $n:expr),*) => { $( pub struct $t; impl Tag for $t { const N: u32 = $n; } )* };
}
tags!(K0 0, K1 1, K2 2, K3 3);

pub struct GRes<I, C> {
    pub rec: Rec,
    _p: PhantomData<fn() -> (I, C)>,
}
pub struct GFut<I, C> {
    pub rec: Rec,
    _p: PhantomData<fn() -> (I, C)>,
}
impl<I, C> Dump for GRes<I, C> {
    fn dump(&self) -> Node {
        self.rec.node()
    }
}
impl<I, C> Dump for GFut<I, C> {
    fn dump(&self) -> Node {
        self.rec.node()
    }
}

fn start_guard<C: TestCtx>(kind: &'static str, id: u32, req: &Arc<http::Request<()>>, ctx: &C) -> (Arc<Session>, Rec) {
    let s = Session::of(req);
    let view = ctx.view();
    let serial = s.start_guard(kind, id, &view);
    let rec = Rec::new(&s, kind, id, serial, view, req);
    (s, rec)
}

impl<I: Tag, C: TestCtx> Guard for GRes<I, C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, ctx: &C) -> Self::Result {
        let (s, rec) = start_guard("R", I::N, req, ctx);
        let plan = s.guard_plan(rec.serial);
        let out = plan.out.eval();
        s.log(Ev::GuardEnd(rec.serial));
        out.map(|()| GRes { rec, _p: PhantomData })
    }
}

impl<I: Tag, C: TestCtx> Guard for GFut<I, C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, ctx: &C) -> Self::Result {
        let (s, rec) = start_guard("F", I::N, req, ctx);
        let plan = s.guard_plan(rec.serial);
        plan.out.eval_call();
        let mut pends = Pends::new(&s, plan.pends.clone());
        let serial = rec.serial;
        let mut rec = Some(rec);
        Box::new(futures::future::poll_fn(move || {
            s.touch();
            if pends.pending() {
                return Ok(Async::NotReady);
            }
            let r = plan.out.eval();
            s.log(Ev::GuardEnd(serial));
            r.map(|()| {
                Async::Ready(GFut {
                    rec: rec.take().expect("polled after completion"),
                    _p: PhantomData,
                })
            })
        }))
    }
}

// ---------------------------------------------------------------- bodies

/// What a custom body decoder or nested probe observed of the body.
#[derive(Debug, Clone)]
pub struct BodyRec {
    pub rec: Rec,
    pub len_hint: Option<u64>,
    pub chunks: Option<Vec<Vec<u8>>>,
}
impl BodyRec {
    pub fn node(&self) -> Node {
        body_node(&self.rec.node(), self.len_hint, self.chunks.as_ref())
    }
}
/// Set when chunk boundaries are not preserved (requests sent over a connection).
pub static JOIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn body_node(rec: &Node, hint: Option<u64>, chunks: Option<&Vec<Vec<u8>>>) -> Node {
    if JOIN.load(std::sync::atomic::Ordering::SeqCst) {
        let all = chunks.map(|c| c.concat());
        return Node::node(
            "Body",
            vec![
                ("rec", rec.clone()),
                ("bytes", Node::Leaf(all.map_or("unread".into(), |c| crate::show(&c)))),
            ],
        );
    }
    Node::node(
        "Body",
        vec![
            ("rec", rec.clone()),
            ("hint", Node::leaf(&hint)),
            ("chunks", Node::Leaf(match chunks {
                None => "unread".into(),
                Some(c) => format!("{:?}", c.iter().map(|c| crate::show(c)).collect::<Vec<_>>()),
            })),
        ],
    )
}

pub struct RawBody<C> {
    pub b: BodyRec,
    _p: PhantomData<fn() -> C>,
}
pub struct EarlyBody<C> {
    pub b: BodyRec,
    _p: PhantomData<fn() -> C>,
}
impl<C> Dump for RawBody<C> {
    fn dump(&self) -> Node {
        self.b.node()
    }
}
impl<C> Dump for EarlyBody<C> {
    fn dump(&self) -> Node {
        self.b.node()
    }
}

/// Reads (or just drops) a body and then produces the planned outcome.
struct ReadFut {
    s: Arc<Session>,
    pends: Pends,
    body: Option<hyper::Body>,
    read: bool,
    chunks: Vec<Vec<u8>>,
    out: Out,
    end: Ev,
}
impl Future for ReadFut {
    type Item = Option<Vec<Vec<u8>>>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Self::Item, BoxedError> {
        self.s.touch();
        if self.pends.pending() {
            return Ok(Async::NotReady);
        }
        if self.read {
            if let Some(b) = &mut self.body {
                loop {
                    match b.poll() {
                        Ok(Async::NotReady) => return Ok(Async::NotReady),
                        Ok(Async::Ready(Some(c))) => self.chunks.push(c.to_vec()),
                        Ok(Async::Ready(None)) => break,
                        Err(e) => {
                            self.s.log(self.end.clone());
                            return Err(e.into());
                        }
                    }
                }
            }
        }
        self.body = None;
        let r = self.out.eval();
        self.s.log(self.end.clone());
        r.map(|()| {
            Async::Ready(if self.read {
                Some(std::mem::replace(&mut self.chunks, vec![]))
            } else {
                None
            })
        })
    }
}

fn start_body<C: TestCtx>(
    kind: &'static str,
    req: &Arc<http::Request<()>>,
    body: hyper::Body,
    ctx: &C,
    read: bool,
) -> (Rec, Option<u64>, ReadFut) {
    use hyper::body::Payload;
    let s = Session::of(req);
    let view = ctx.view();
    let (serial, plan) = if kind == "Probe" {
        s.start_probe(&view)
    } else {
        s.start_body(kind, &view)
    };
    let end = if kind == "Probe" {
        Ev::ProbeEnd(serial)
    } else {
        Ev::BodyEnd
    };
    let rec = Rec::new(&s, kind, 0, serial, view, req);
    plan.out.eval_call();
    let hint = body.content_length();
    let fut = ReadFut {
        pends: Pends::new(&s, plan.pends.clone()),
        s,
        body: Some(body),
        read: read && plan.read,
        chunks: vec![],
        out: plan.out,
        end,
    };
    (rec, hint, fut)
}

impl<C: TestCtx> FromBody for RawBody<C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(req: &Arc<http::Request<()>>, body: hyper::Body, ctx: &C) -> Self::Result {
        let (rec, len_hint, fut) = start_body("Raw", req, body, ctx, true);
        Box::new(fut.map(move |chunks| RawBody {
            b: BodyRec { rec, len_hint, chunks },
            _p: PhantomData,
        }))
    }
}
impl<C: TestCtx> FromBody for EarlyBody<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_body(req: &Arc<http::Request<()>>, body: hyper::Body, ctx: &C) -> Self::Result {
        let (rec, len_hint, mut fut) = start_body("Early", req, body, ctx, false);
        fut.pends = Pends::none();
        match fut.poll() {
            Ok(_) => Ok(EarlyBody {
                b: BodyRec { rec, len_hint, chunks: None },
                _p: PhantomData,
            }),
            Err(e) => Err(e),
        }
    }
}

/// Hand-written `FromRequest` implementation recording what it is given.
pub struct Probe<C> {
    pub b: BodyRec,
    _p: PhantomData<fn() -> C>,
}
impl<C> Dump for Probe<C> {
    fn dump(&self) -> Node {
        self.b.node()
    }
}
impl<C: TestCtx> FromRequest for Probe<C> {
    type Context = C;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(req: &Arc<http::Request<()>>, body: hyper::Body, ctx: C) -> Self::Future {
        let (rec, len_hint, fut) = start_body("Probe", req, body, &ctx, true);
        drop(ctx);
        Box::new(fut.map(move |chunks| Probe {
            b: BodyRec { rec, len_hint, chunks },
            _p: PhantomData,
        }))
    }
}
