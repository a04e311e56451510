//! Reference model: what decoding a request must yield, computed from the declaration's
//! specification and the request alone (no regexes, no code of hyperdrive).

use crate::session::{observed_code, Ev, Item, Out, Plan};
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use vspec::spec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum ErrKind {
    Hyper {
        status: u16,
        allow: Option<BTreeSet<String>>,
        source: Option<String>,
    },
    Plan(u64),
    Json(String),
    Form(String),
    Stream(u64),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Node),
    Err(ErrKind),
    Panic(String),
    /// Never completes (body that never ends).
    Stall,
}

impl Res {
    pub fn text(&self) -> String {
        match self {
            Res::Ok(n) => format!("Ok({})", n.text()),
            r => format!("{:?}", r),
        }
    }
    pub fn class(&self) -> String {
        match self {
            Res::Ok(_) => "ok".into(),
            Res::Err(ErrKind::Hyper { status, source, .. }) => {
                format!("e{}{}", status, if source.is_some() { "s" } else { "" })
            }
            Res::Err(ErrKind::Plan(_)) => "eplan".into(),
            Res::Err(ErrKind::Json(_)) => "ejson".into(),
            Res::Err(ErrKind::Form(_)) => "eform".into(),
            Res::Err(ErrKind::Stream(_)) => "estream".into(),
            Res::Err(ErrKind::Other(_)) => "eother".into(),
            Res::Panic(_) => "panic".into(),
            Res::Stall => "stall".into(),
        }
    }
}

/// Where the expected outcome was decided, used to attribute mismatches to properties.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Stage {
    /// value decoded
    Done,
    /// nothing matches
    NotFound,
    /// 405
    WrongMethod,
    /// 405 merged with the nested type's
    Merged,
    Segment,
    Query,
    Guard,
    Body,
    Probe,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub res: Res,
    pub events: Vec<Ev>,
    pub stage: Stage,
    /// whether the body stream is read
    pub reads_body: bool,
    /// body is drained until its end / error / hang
    pub guards_ok: usize,
    /// variant path, e.g. `Routes::User>Inner::X`
    pub route: String,
    pub implicit_head: bool,
    pub used_fallback: bool,
    pub forwarded: bool,
    pub depth: usize,
}

#[derive(Clone, Debug)]
pub enum BodyKind {
    Empty,
    Full(Vec<u8>),
    Stream(Vec<Item>),
}

impl BodyKind {
    pub fn hint(&self) -> Option<u64> {
        match self {
            BodyKind::Empty => Some(0),
            BodyKind::Full(b) => Some(b.len() as u64),
            BodyKind::Stream(_) => None,
        }
    }
    /// Non-empty chunks until the end, and how the body ends.
    pub fn read(&self) -> (Vec<Vec<u8>>, BodyEnd) {
        match self {
            BodyKind::Empty => (vec![], BodyEnd::Eof),
            BodyKind::Full(b) => {
                if b.is_empty() {
                    (vec![], BodyEnd::Eof)
                } else {
                    (vec![b.clone()], BodyEnd::Eof)
                }
            }
            BodyKind::Stream(items) => {
                let mut c = vec![];
                for i in items {
                    match i {
                        Item::Chunk(x) => c.push(x.clone()),
                        Item::Pend(_) => {}
                        Item::Err(e) => return (c, BodyEnd::Err(*e)),
                        Item::Hang => return (c, BodyEnd::Hang),
                        Item::Panic(p) => return (c, BodyEnd::Panic(*p)),
                    }
                }
                (c, BodyEnd::Eof)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BodyEnd {
    Eof,
    Err(u64),
    Hang,
    Panic(u64),
}

#[derive(Clone, Debug)]
pub struct ReqInfo<'a> {
    pub method: &'a str,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fp: &'a str,
    pub body: &'a BodyKind,
    pub nonce: u64,
    pub plan: &'a Plan,
}

pub fn ctx_view(outer: Ctx, want: Ctx, n: u64) -> String {
    match (outer, want) {
        (_, Ctx::No) => "No".into(),
        (Ctx::A, Ctx::A) => format!("A{}", n),
        (Ctx::A, Ctx::S) => format!("S{}", n + 1),
        (Ctx::B, Ctx::B) => format!("B{}", n),
        (Ctx::B, Ctx::A) => format!("A{}", n + 10),
        (Ctx::B, Ctx::T) => format!("T{}", n + 20),
        (Ctx::S, Ctx::S) => format!("S{}", n),
        (Ctx::T, Ctx::T) => format!("T{}", n),
        x => panic!("no projection {:?}", x),
    }
}

fn conv<T: FromStr + Dump>(s: &str) -> Result<Node, String>
where
    T::Err: std::error::Error + 'static,
{
    match s.parse::<T>() {
        Ok(v) => Ok(v.dump()),
        Err(e) => Err(source_text(&e)),
    }
}

pub fn convert(t: SegTy, s: &str) -> Result<Node, String> {
    match t {
        SegTy::Str => Ok(Node::Leaf(format!("{:?}", s))),
        SegTy::U8 => conv::<u8>(s),
        SegTy::U32 => conv::<u32>(s),
        SegTy::I64 => conv::<i64>(s),
        SegTy::U128 => conv::<u128>(s),
        SegTy::Bool => conv::<bool>(s),
        SegTy::Char => conv::<char>(s),
        SegTy::Ip => conv::<std::net::IpAddr>(s),
        SegTy::PathBuf => conv::<std::path::PathBuf>(s),
        SegTy::Even => conv::<Even>(s),
        SegTy::NoDigit => conv::<NoDigit>(s),
        SegTy::Upper => conv::<Upper>(s),
        SegTy::Never => conv::<Never>(s),
    }
}

fn q<T: serde::de::DeserializeOwned + std::fmt::Debug>(raw: &str, opt: bool) -> Result<Node, String> {
    if opt && raw.is_empty() {
        return Ok(Node::leaf(&None::<T>));
    }
    match serde_urlencoded::from_str::<T>(raw) {
        Ok(v) if opt => Ok(Node::leaf(&Some(v))),
        Ok(v) => Ok(Node::leaf(&v)),
        Err(e) => Err(source_text(&e)),
    }
}

pub fn decode_query(t: QTy, raw: &str) -> Result<Node, String> {
    match t.base {
        QBase::Pairs => q::<Vec<(String, String)>>(raw, t.opt),
        QBase::Map => q::<BTreeMap<String, String>>(raw, t.opt),
        QBase::S1 => q::<QS1>(raw, t.opt),
        QBase::S2 => q::<QS2>(raw, t.opt),
        QBase::S3 => q::<QS3>(raw, t.opt),
        QBase::New => q::<QNew>(raw, t.opt),
        QBase::PairsU => q::<Vec<(String, u16)>>(raw, t.opt),
        QBase::Unit => q::<()>(raw, t.opt),
        QBase::Flat => q::<QFlat>(raw, t.opt),
        QBase::Trans => q::<QTrans>(raw, t.opt),
        QBase::Enums => q::<Vec<(QE, String)>>(raw, t.opt),
        QBase::Nums => q::<BTreeMap<u8, f64>>(raw, t.opt),
        QBase::Spy0 => q::<Spy0>(raw, t.opt),
        QBase::Spy1 => q::<Spy1>(raw, t.opt),
        QBase::Spy2 => q::<Spy2>(raw, t.opt),
        QBase::Spy3 => q::<Spy3>(raw, t.opt),
        QBase::Arr => q::<[(String, String); 2]>(raw, t.opt),
    }
}

fn json<T: serde::de::DeserializeOwned + std::fmt::Debug>(b: &[u8]) -> Result<Node, ErrKind> {
    serde_json::from_slice::<T>(b)
        .map(|v| Node::leaf(&v))
        .map_err(|e| ErrKind::Json(e.to_string()))
}
fn form<T: serde::de::DeserializeOwned + std::fmt::Debug>(b: &[u8]) -> Result<Node, ErrKind> {
    serde_urlencoded::from_bytes::<T>(b)
        .map(|v| Node::leaf(&v))
        .map_err(|e| ErrKind::Form(e.to_string()))
}

/// Methods accepted by type `ti` for each pattern, including implied `HEAD`s.
pub struct Matched<'a> {
    /// accepted methods of the matching pattern, with their variant and captures
    pub accept: Vec<(&'static str, &'a VarSpec, Vec<String>, bool)>,
}

pub fn match_type<'a>(t: &'a TypeSpec, path: &str) -> Matched<'a> {
    let mut accept = vec![];
    for v in &t.vars {
        for r in &v.routes {
            if let Some(caps) = r.pat.matches(path) {
                accept.push((r.method, v, caps, false));
            }
        }
    }
    if !accept.iter().any(|a| a.0 == "HEAD") {
        if let Some(get) = accept.iter().find(|a| a.0 == "GET").cloned() {
            accept.push(("HEAD", get.1, get.2, true));
        }
    }
    Matched { accept }
}

struct Run<'a> {
    case: &'a CaseSpec,
    req: &'a ReqInfo<'a>,
    e: Expect,
    guards: usize,
    probes: usize,
}

/// Outcome of a sub-decode that stops the whole decode.
enum Stop {
    Err(ErrKind),
    Panic(u64),
    Stall,
}

pub fn expect(case: &CaseSpec, ti: usize, req: &ReqInfo<'_>) -> Expect {
    let mut r = Run {
        case,
        req,
        e: Expect {
            res: Res::Stall,
            events: vec![],
            stage: Stage::Done,
            reads_body: false,
            guards_ok: 0,
            route: String::new(),
            implicit_head: false,
            used_fallback: false,
            forwarded: false,
            depth: 0,
        },
        guards: 0,
        probes: 0,
    };
    let res = r.decode(ti);
    r.e.res = match res {
        Ok(n) => Res::Ok(n),
        Err(Stop::Err(e)) => Res::Err(e),
        Err(Stop::Panic(c)) => Res::Panic(format!("plan {}", c)),
        Err(Stop::Stall) => Res::Stall,
    };
    r.e
}

fn hyper(status: u16, source: Option<String>) -> Stop {
    Stop::Err(ErrKind::Hyper {
        status,
        allow: None,
        source,
    })
}
fn wrong(allow: BTreeSet<String>) -> Stop {
    Stop::Err(ErrKind::Hyper {
        status: 405,
        allow: Some(allow),
        source: None,
    })
}

fn outcome(o: &Out) -> Result<(), Stop> {
    match o {
        Out::Ok => Ok(()),
        Out::Err(c) => Err(Stop::Err(ErrKind::Plan(observed_code(*c)))),
        Out::Hyper(405) => Err(wrong(BTreeSet::new())),
        Out::Hyper(s) => Err(hyper(*s, None)),
        Out::HyperSrc(s, t) => Err(hyper(*s, Some(format!("other: {}", t)))),
        Out::Wrong(ms) => Err(wrong(ms.iter().map(|m| m.to_string()).collect())),
        Out::Panic(c) | Out::PanicCall(c) => Err(Stop::Panic(*c)),
    }
}
fn panics(o: &Out) -> bool {
    match o {
        Out::Panic(_) | Out::PanicCall(_) => true,
        _ => false,
    }
}

impl<'a> Run<'a> {
    fn decode(&mut self, ti: usize) -> Result<Node, Stop> {
        let case = self.case;
        let t = &case.types[ti];
        let m = match_type(t, self.req.path);
        if let Some((_, v, caps, implied)) = m.accept.iter().find(|a| a.0 == self.req.method) {
            if *implied {
                self.e.implicit_head = true;
            }
            return self.variant(ti, v, caps);
        }
        let allow: BTreeSet<String> = m
            .accept
            .iter()
            .filter(|(method, v, caps, _)| {
                // conversions of the placeholders of the route that was declared for the method
                let route = v
                    .routes
                    .iter()
                    .find(|r| {
                        r.pat.matches(self.req.path).is_some()
                            && (r.method == *method || (*method == "HEAD" && r.method == "GET"))
                    })
                    .unwrap();
                route.pat.placeholders().iter().zip(caps).all(|(name, text)| {
                    match v.field(name).unwrap().role {
                        Role::Seg(s) => convert(s, text).is_ok(),
                        _ => unreachable!(),
                    }
                })
            })
            .map(|a| a.0.to_string())
            .collect();
        match t.fallback() {
            Some(v) => {
                self.e.used_fallback = true;
                match self.variant(ti, v, &[]) {
                    Err(Stop::Err(ErrKind::Hyper {
                        status: 405,
                        allow: Some(inner),
                        ..
                    })) if !m.accept.is_empty() => {
                        self.e.stage = Stage::Merged;
                        Err(wrong(allow.union(&inner).cloned().collect()))
                    }
                    r => r,
                }
            }
            None if m.accept.is_empty() => {
                self.e.stage = Stage::NotFound;
                Err(hyper(404, None))
            }
            None => {
                self.e.stage = Stage::WrongMethod;
                Err(wrong(allow))
            }
        }
    }

    fn variant(&mut self, ti: usize, v: &VarSpec, caps: &[String]) -> Result<Node, Stop> {
        let t = &self.case.types[ti];
        if !self.e.route.is_empty() {
            self.e.route.push('>');
        }
        self.e.route.push_str(&format!("{}::{}", t.name, v.name));
        let mut fields: BTreeMap<String, Node> = BTreeMap::new();
        if let Some(route) = v.routes.first() {
            // all routes of a variant have the same placeholders in the same order
            for (name, text) in route.pat.placeholders().iter().zip(caps) {
                let ty = match v.field(name).unwrap().role {
                    Role::Seg(s) => s,
                    _ => unreachable!(),
                };
                match convert(ty, text) {
                    Ok(n) => {
                        fields.insert(name.clone(), n);
                    }
                    Err(e) => {
                        self.e.stage = Stage::Segment;
                        return Err(hyper(404, Some(e)));
                    }
                }
            }
        }
        if let Some(f) = v.query() {
            let ty = match f.role {
                Role::Query(q) => q,
                _ => unreachable!(),
            };
            match decode_query(ty, self.req.query.unwrap_or("")) {
                Ok(n) => {
                    fields.insert(f.name.clone(), n);
                }
                Err(e) => {
                    self.e.stage = Stage::Query;
                    return Err(hyper(400, Some(e)));
                }
            }
        }
        for (f, g) in v.guards() {
            let serial = self.guards;
            self.guards += 1;
            let kind = match g.kind {
                GKind::Res => "R",
                GKind::Fut => "F",
            };
            let view = ctx_view(t.ctx, g.ctx, self.req.nonce);
            self.e.events.push(Ev::GuardStart(serial, kind, g.id, view.clone()));
            let plan = self.req.plan.guards.get(serial).cloned().unwrap_or_default();
            if !panics(&plan.out) {
                self.e.events.push(Ev::GuardEnd(serial));
            }
            if let Err(s) = outcome(&plan.out) {
                self.e.stage = Stage::Guard;
                return Err(s);
            }
            self.e.guards_ok += 1;
            fields.insert(f.name.clone(), rec_node(kind, g.id, serial, &view, self.req.fp));
        }
        if let Some(f) = v.body() {
            let ty = match f.role {
                Role::Body(b) => b,
                _ => unreachable!(),
            };
            self.e.stage = Stage::Body;
            let n = self.body(t.ctx, ty)?;
            fields.insert(f.name.clone(), n);
        }
        if let Some(f) = v.forward() {
            self.e.forwarded = true;
            self.e.depth += 1;
            let n = match f.role {
                Role::Forward(FwTy::Type(i)) => self.decode(i)?,
                Role::Forward(FwTy::Probe) => {
                    self.e.stage = Stage::Probe;
                    let n = self.probes;
                    self.probes += 1;
                    let plan = self.req.plan.probes.get(n).cloned().unwrap_or_default();
                    let view = ctx_view(t.ctx, t.ctx, self.req.nonce);
                    self.e.events.push(Ev::ProbeStart(n, view.clone()));
                    self.custom("Probe", n, view, &plan, plan.read, Ev::ProbeEnd(n))?
                }
                _ => unreachable!(),
            };
            fields.insert(f.name.clone(), n);
        }
        self.e.stage = Stage::Done;
        Ok(Node::Node(
            v.name.clone(),
            v.fields
                .iter()
                .map(|f| (f.name.clone(), fields[&f.name].clone()))
                .collect(),
        ))
    }

    fn custom(
        &mut self,
        kind: &'static str,
        serial: usize,
        view: String,
        plan: &crate::session::StepPlan,
        read: bool,
        end: Ev,
    ) -> Result<Node, Stop> {
        if let Out::PanicCall(c) = plan.out {
            return Err(Stop::Panic(c));
        }
        let mut chunks = None;
        if read {
            self.e.reads_body = true;
            let (c, how) = self.req.body.read();
            match how {
                BodyEnd::Eof => {}
                BodyEnd::Err(e) => {
                    self.e.events.push(end);
                    return Err(Stop::Err(ErrKind::Stream(e)));
                }
                BodyEnd::Hang => return Err(Stop::Stall),
                BodyEnd::Panic(p) => return Err(Stop::Panic(p)),
            }
            chunks = Some(c);
        }
        if !panics(&plan.out) {
            self.e.events.push(end);
        }
        outcome(&plan.out)?;
        let rec = rec_node(kind, 0, serial, &view, self.req.fp);
        Ok(body_node(&rec, self.req.body.hint(), chunks.as_ref()))
    }

    fn body(&mut self, outer: Ctx, ty: BTy) -> Result<Node, Stop> {
        match ty {
            BTy::Raw(c) | BTy::Early(c) => {
                let view = ctx_view(outer, c, self.req.nonce);
                let plan = self.req.plan.body.clone();
                let (kind, read) = match ty {
                    BTy::Raw(_) => ("Raw", plan.read),
                    _ => ("Early", false),
                };
                self.e.events.push(Ev::BodyStart(kind, view.clone()));
                self.custom(kind, 0, view, &plan, read, Ev::BodyEnd)
            }
            _ => {
                self.e.reads_body = true;
                let (c, how) = self.req.body.read();
                match how {
                    BodyEnd::Eof => {}
                    BodyEnd::Err(e) => return Err(Stop::Err(ErrKind::Stream(e))),
                    BodyEnd::Hang => return Err(Stop::Stall),
                    BodyEnd::Panic(p) => return Err(Stop::Panic(p)),
                }
                let all: Vec<u8> = c.concat();
                match ty {
                    BTy::JsonVal => json::<JsonValue>(&all),
                    BTy::JsonS => json::<JS>(&all),
                    BTy::JsonVec => json::<Vec<u32>>(&all),
                    BTy::FormPairs => form::<Vec<(String, String)>>(&all),
                    BTy::FormS => form::<QS1>(&all),
                    BTy::JsonOpt => json::<Option<u8>>(&all),
                    BTy::JsonStr => json::<String>(&all),
                    BTy::JsonEnum => json::<JE>(&all),
                    BTy::JsonIgn => json::<JIgn>(&all),
                    BTy::FormMap => form::<BTreeMap<String, String>>(&all),
                    BTy::FormUnit => form::<()>(&all),
                    BTy::FormNum => form::<FNum>(&all),
                    _ => unreachable!(),
                }
                .map_err(Stop::Err)
            }
        }
    }
}
