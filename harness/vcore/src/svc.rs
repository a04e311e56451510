//! Drives generated types through hyperdrive's service adapters.

use crate::exec::*;
use crate::model::*;
use crate::reqgen::*;
use crate::run::*;
use crate::session::*;
use crate::types::*;
use futures::executor::{self, Spawn};
use futures::{Async, Future, Poll, Stream};
use hyper::body::Payload;
use hyper::service::{MakeService, Service};
use hyper::{Body, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, FromRequest};
use serde_json::json;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vspec::rng::Rng;
use vspec::spec::CaseSpec;

pub type HReq = http::Request<Body>;
pub type RespFut = Box<dyn Future<Item = Response<Body>, Error = BoxedError> + Send>;

/// Object-safe view of a service.
pub trait AnySvc: Send + Sync {
    fn ready(&mut self) -> Poll<(), BoxedError>;
    fn go(&mut self, req: HReq) -> RespFut;
    /// Another instance: by `Clone`, by its own `MakeService` or by `make_service_by_cloning`.
    fn dup(&mut self, how: usize) -> Box<dyn AnySvc>;
}

pub trait Svc: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = RespFut> + Clone + Send + Sync + 'static {}
impl<S> Svc for S where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = RespFut> + Clone + Send + Sync + 'static
{
}

pub struct Plain<S>(pub S);
pub struct Caught<S>(pub S);

fn made<S>(f: futures::future::FutureResult<S, BoxedError>) -> S {
    match f.wait() {
        Ok(s) => s,
        Err(e) => panic!("make_service failed: {}", e),
    }
}

impl<S> AnySvc for Plain<S>
where
    S: Svc + MakeService<u8, Service = S, Future = futures::future::FutureResult<S, BoxedError>>,
{
    fn ready(&mut self) -> Poll<(), BoxedError> {
        Service::poll_ready(&mut self.0)
    }
    fn go(&mut self, req: HReq) -> RespFut {
        self.0.call(req)
    }
    fn dup(&mut self, how: usize) -> Box<dyn AnySvc> {
        Box::new(Plain(match how % 3 {
            0 => self.0.clone(),
            1 => made(self.0.make_service(7u8)),
            _ => made(MakeService::<u8>::make_service(&mut self.0.clone().make_service_by_cloning(), 7)),
        }))
    }
}
impl<S: Svc> AnySvc for Caught<S> {
    fn ready(&mut self) -> Poll<(), BoxedError> {
        Service::poll_ready(&mut self.0)
    }
    fn go(&mut self, req: HReq) -> RespFut {
        self.0.call(req)
    }
    fn dup(&mut self, how: usize) -> Box<dyn AnySvc> {
        Box::new(Caught(match how % 2 {
            0 => self.0.clone(),
            _ => made(MakeService::<u8>::make_service(&mut self.0.clone().make_service_by_cloning(), 7)),
        }))
    }
}

pub fn respond(s: &Arc<Session>) -> Response<Body> {
    let p = &s.plan.handler;
    let mut r = Response::new(match &p.body {
        None => Body::empty(),
        Some(Err(b)) => Body::from(b.clone()),
        Some(Ok(items)) => Body::wrap_stream(RespStream::new(s, items)),
    });
    *r.status_mut() = http::StatusCode::from_u16(p.status).unwrap();
    *r.version_mut() = p.version;
    for (n, v) in &p.headers {
        r.headers_mut().append(
            http::header::HeaderName::from_bytes(n.as_bytes()).unwrap(),
            http::header::HeaderValue::from_bytes(v).unwrap(),
        );
    }
    if let Some(e) = p.ext {
        r.extensions_mut().insert(RespExt(e));
    }
    r
}

fn handle_async<T: Dump + Send + 'static>(v: T, req: Arc<http::Request<()>>) -> RespFut {
    let s = Session::of(&*req);
    s.log(Ev::Handler(v.dump().text(), fingerprint(&*req)));
    let plan = s.plan.handler.clone();
    plan.out.eval_call();
    let mut pends = Pends::new(&s, plan.pends.clone());
    Box::new(futures::future::poll_fn(move || {
        let _keep = (&v, &req);
        s.touch();
        if pends.pending() {
            return Ok(Async::NotReady);
        }
        plan.out.eval()?;
        Ok(Async::Ready(respond(&s)))
    }))
}

fn handle_sync<T: Dump + Send + 'static>(v: T, req: Arc<http::Request<()>>) -> Response<Body> {
    let s = Session::of(&*req);
    s.log(Ev::Handler(v.dump().text(), fingerprint(&*req)));
    for i in 0..s.plan.handler.yields {
        std::thread::yield_now();
        if i == 2 {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    match s.plan.handler.out {
        Out::Panic(c) | Out::PanicCall(c) => do_panic(c),
        _ => respond(&s),
    }
}

pub fn panic_event(p: &(dyn Any + Send)) -> Ev {
    let (t, text) = payload(p);
    Ev::PanicHandler(t.to_string(), text)
}

pub fn on_panic(p: Box<dyn Any + Send>) -> RespFut {
    let s = match Session::current() {
        Some(s) => s,
        None => Session::new(0, Plan::default()),
    };
    s.log(panic_event(&*p));
    let text = panic_text(&*p);
    let kind = s.plan.panic.kind;
    let mut pend = kind == 2;
    let mut payload = Some(p);
    Box::new(futures::future::poll_fn(move || {
        if pend {
            pend = false;
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        drop(payload.take());
        match kind {
            1 => Err(PlanErr::new(777).into()),
            3 => Err(hyperdrive::Error::from_status(http::StatusCode::SERVICE_UNAVAILABLE).into()),
            _ => {
                let mut r = Response::new(Body::from(text.clone()));
                *r.status_mut() = http::StatusCode::INTERNAL_SERVER_ERROR;
                r.headers_mut().insert("x-panic", http::header::HeaderValue::from_static("1"));
                Ok(Async::Ready(r))
            }
        }
    }))
}

pub type MakeSvc = fn(u64, &Life, bool, bool) -> Box<dyn AnySvc>;

/// A service for `T`: `(context nonce, life, sync, caught)`.
pub fn make_svc<T, C>(nonce: u64, l: &Life, sync: bool, caught: bool) -> Box<dyn AnySvc>
where
    T: FromRequest<Context = C> + Dump + Send + 'static,
    T::Future: 'static,
    C: TestCtx,
{
    match (sync, caught) {
        (false, false) => Box::new(Plain(AsyncService::with_context(handle_async::<T>, C::make(nonce, l)))),
        (false, true) => Box::new(Caught(
            AsyncService::with_context(handle_async::<T>, C::make(nonce, l)).catch_unwind(on_panic),
        )),
        (true, false) => Box::new(Plain(SyncService::with_context(handle_sync::<T>, C::make(nonce, l)))),
        (true, true) => Box::new(Caught(
            SyncService::with_context(handle_sync::<T>, C::make(nonce, l)).catch_unwind(on_panic),
        )),
    }
}

// ---------------------------------------------------------------- observation

#[derive(Clone, Debug, PartialEq)]
pub struct RespObs {
    pub status: u16,
    pub version: http::Version,
    pub headers: BTreeMap<String, Vec<String>>,
    pub ext: Option<u64>,
    pub hint: Option<u64>,
    pub chunks: Vec<Vec<u8>>,
    pub end: BodyEnd,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SvcRes {
    Resp(RespObs),
    Err(ErrKind),
    Panic(String),
    Stall,
}
impl SvcRes {
    pub fn text(&self) -> String {
        match self {
            SvcRes::Resp(r) => format!(
                "Resp({} {:?} {:?} ext={:?} hint={:?} body={:?} {:?})",
                r.status,
                r.version,
                r.headers,
                r.ext,
                r.hint,
                r.chunks.iter().map(|c| crate::show(c)).collect::<Vec<_>>(),
                r.end
            ),
            x => format!("{:?}", x),
        }
    }
    pub fn class(&self) -> String {
        match self {
            SvcRes::Resp(r) => format!("resp{}", r.status),
            SvcRes::Err(_) => "err".into(),
            SvcRes::Panic(_) => "panic".into(),
            SvcRes::Stall => "stall".into(),
        }
    }
}

fn headers_of(h: &http::HeaderMap) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in h {
        m.entry(k.as_str().to_string()).or_default().push(crate::show(v.as_bytes()));
    }
    m
}

enum ObsState {
    Resp(RespFut),
    Body(RespObs, Body),
    Done,
}

/// Runs a service future and then reads the response's body; never fails or panics.
pub struct Observe {
    s: Arc<Session>,
    st: ObsState,
    pub polls: Arc<AtomicUsize>,
}
impl Observe {
    pub fn new(s: &Arc<Session>, f: RespFut) -> Observe {
        Observe {
            s: s.clone(),
            st: ObsState::Resp(f),
            polls: Arc::new(AtomicUsize::new(0)),
        }
    }
    fn inner(&mut self) -> Poll<SvcRes, ()> {
        loop {
            let next = match &mut self.st {
                ObsState::Done => panic!("polled after completion"),
                ObsState::Resp(f) => match catch_unwind(AssertUnwindSafe(|| f.poll())) {
                    Ok(Ok(Async::NotReady)) => return Ok(Async::NotReady),
                    Ok(Ok(Async::Ready(r))) => {
                        let (p, b) = r.into_parts();
                        ObsState::Body(
                            RespObs {
                                status: p.status.as_u16(),
                                version: p.version,
                                headers: headers_of(&p.headers),
                                ext: p.extensions.get::<RespExt>().map(|e| e.0),
                                hint: b.content_length(),
                                chunks: vec![],
                                end: BodyEnd::Eof,
                            },
                            b,
                        )
                    }
                    Ok(Err(e)) => {
                        let k = err_kind(&e);
                        self.st = ObsState::Done;
                        return Ok(Async::Ready(SvcRes::Err(k)));
                    }
                    Err(p) => {
                        self.st = ObsState::Done;
                        return Ok(Async::Ready(SvcRes::Panic(panic_text(&*p))));
                    }
                },
                ObsState::Body(o, b) => match b.poll() {
                    Ok(Async::NotReady) => return Ok(Async::NotReady),
                    Ok(Async::Ready(Some(c))) => {
                        o.chunks.push(c.to_vec());
                        continue;
                    }
                    Ok(Async::Ready(None)) => {
                        let o = o.clone();
                        self.st = ObsState::Done;
                        return Ok(Async::Ready(SvcRes::Resp(o)));
                    }
                    Err(e) => {
                        let mut o = o.clone();
                        let e: BoxedError = e.into();
                        o.end = match err_kind(&e) {
                            ErrKind::Stream(c) => BodyEnd::Err(c),
                            _ => BodyEnd::Hang,
                        };
                        self.st = ObsState::Done;
                        return Ok(Async::Ready(SvcRes::Resp(o)));
                    }
                },
            };
            self.st = next;
        }
    }
}
impl Future for Observe {
    type Item = SvcRes;
    type Error = ();
    fn poll(&mut self) -> Poll<SvcRes, ()> {
        self.polls.fetch_add(1, Ordering::SeqCst);
        let _g = Enter::new(&self.s.clone());
        self.inner()
    }
}
impl Drop for Observe {
    fn drop(&mut self) {
        let _g = Enter::new(&self.s.clone());
        self.st = ObsState::Done;
    }
}

/// Starts a call; panics in `call` become the result.
pub fn start(s: &Arc<Session>, svc: &mut dyn AnySvc, req: HReq) -> Result<Observe, SvcRes> {
    let _g = Enter::new(s);
    match catch_unwind(AssertUnwindSafe(|| svc.go(req))) {
        Ok(f) => Ok(Observe::new(s, f)),
        Err(p) => Err(SvcRes::Panic(panic_text(&*p))),
    }
}

// ---------------------------------------------------------------- expectation

fn error_resp(k: &ErrKind) -> SvcRes {
    match k {
        ErrKind::Hyper { status, allow, .. } => {
            let mut headers = BTreeMap::new();
            if let Some(a) = allow {
                headers.insert(
                    "allow".to_string(),
                    vec![a.iter().cloned().collect::<Vec<_>>().join(", ")],
                );
            }
            SvcRes::Resp(RespObs {
                status: *status,
                version: http::Version::HTTP_11,
                headers,
                ext: None,
                hint: Some(0),
                chunks: vec![],
                end: BodyEnd::Eof,
            })
        }
        k => SvcRes::Err(k.clone()),
    }
}

/// Expected outcome of a service call, given the outcome of decoding.
pub fn svc_expect(decode: &Res, events: &[Ev], method: &str, fp: &str, plan: &Plan, sync: bool, caught: bool) -> (SvcRes, Vec<Ev>) {
    let mut ev = events.to_vec();
    let h = &plan.handler;
    let mut res = match decode {
        Res::Err(k) => error_resp(k),
        Res::Panic(p) => SvcRes::Panic(p.clone()),
        Res::Stall => SvcRes::Stall,
        Res::Ok(n) => {
            ev.push(Ev::Handler(n.text(), fp.to_string()));
            let resp = || {
                let mut map = http::HeaderMap::new();
                for (n, v) in &h.headers {
                    map.append(
                        http::header::HeaderName::from_bytes(n.as_bytes()).unwrap(),
                        http::header::HeaderValue::from_bytes(v).unwrap(),
                    );
                }
                let (hint, (chunks, end)) = if method == "HEAD" {
                    (Some(0), (vec![], BodyEnd::Eof))
                } else {
                    match &h.body {
                        None => (Some(0), (vec![], BodyEnd::Eof)),
                        Some(Err(b)) => {
                            let k = BodyKind::Full(b.clone());
                            (k.hint(), k.read())
                        }
                        Some(Ok(items)) => {
                            let k = BodyKind::Stream(items.clone());
                            (k.hint(), k.read())
                        }
                    }
                };
                SvcRes::Resp(RespObs {
                    status: h.status,
                    version: h.version,
                    headers: headers_of(&map),
                    ext: h.ext,
                    hint,
                    chunks,
                    end,
                })
            };
            match &h.out {
                Out::Panic(c) | Out::PanicCall(c) => SvcRes::Panic(format!("plan {}", c)),
                _ if sync => resp(),
                Out::Ok => resp(),
                Out::Err(c) => SvcRes::Err(ErrKind::Plan(observed_code(*c))),
                Out::Hyper(405) => error_resp(&ErrKind::Hyper {
                    status: 405,
                    allow: Some(BTreeSet::new()),
                    source: None,
                }),
                Out::Hyper(s) | Out::HyperSrc(s, _) => error_resp(&ErrKind::Hyper {
                    status: *s,
                    allow: None,
                    source: None,
                }),
                Out::Wrong(ms) => error_resp(&ErrKind::Hyper {
                    status: 405,
                    allow: Some(ms.iter().map(|m| m.to_string()).collect()),
                    source: None,
                }),
            }
        }
    };
    if caught {
        if let SvcRes::Panic(p) = &res {
            let code: u64 = p.trim_start_matches("plan ").parse().unwrap_or(0);
            ev.push(Ev::PanicHandler(payload_type(code).to_string(), p.clone()));
            res = match plan.panic.kind {
                1 => SvcRes::Err(ErrKind::Plan(777)),
                3 => SvcRes::Err(ErrKind::Hyper {
                    status: 503,
                    allow: None,
                    source: None,
                }),
                _ => {
                    let mut headers = BTreeMap::new();
                    headers.insert("x-panic".to_string(), vec!["1".to_string()]);
                    SvcRes::Resp(RespObs {
                        status: 500,
                        version: http::Version::HTTP_11,
                        headers,
                        ext: None,
                        hint: Some(p.len() as u64),
                        chunks: vec![p.clone().into_bytes()],
                        end: BodyEnd::Eof,
                    })
                }
            };
        }
    }
    (res, ev)
}

/// `Allow` is compared as a set.
fn norm(r: &SvcRes, decoded: bool) -> SvcRes {
    let mut r = r.clone();
    if let SvcRes::Resp(o) = &mut r {
        if !decoded || o.status == 405 {
            if let Some(v) = o.headers.get_mut("allow") {
                if v.len() == 1 {
                    let mut s: Vec<String> = v[0].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    s.sort();
                    s.dedup();
                    *v = vec![s.join(", ")];
                }
            }
        }
    }
    r
}

fn calls(ev: &[Ev]) -> Vec<&Ev> {
    ev.iter()
        .filter(|e| match e {
            Ev::Handler(..) => true,
            _ => false,
        })
        .collect()
}
fn caughts(ev: &[Ev]) -> Vec<&Ev> {
    ev.iter()
        .filter(|e| match e {
            Ev::PanicHandler(..) => true,
            _ => false,
        })
        .collect()
}

#[derive(Clone)]
pub struct Call {
    pub req: Req,
    pub x: Expect,
    pub want: SvcRes,
    pub want_ev: Vec<Ev>,
    pub fp: String,
    pub sync: bool,
    pub caught: bool,
}

/// Attributes a wrong outcome of a service call.
pub fn blame(c: &Call, got: &SvcRes, ev: &[Ev]) -> Option<(BTreeSet<&'static str>, String)> {
    let mut b: BTreeSet<&'static str> = BTreeSet::new();
    let mut what = vec![];
    let decoded = if let Res::Ok(_) = c.x.res { true } else { false };
    let (w, g) = (norm(&c.want, decoded), norm(got, decoded));
    let panicked = caughts(&c.want_ev).len() > 0;
    if w != g {
        what.push(format!("expected {} got {}", c.want.text(), got.text()));
        let hyper_expected = match (&c.x.res, &c.req.plan.handler.out) {
            (Res::Err(_), _) => true,
            (Res::Ok(_), Out::Err(_)) | (Res::Ok(_), Out::Hyper(_)) | (Res::Ok(_), Out::HyperSrc(..)) | (Res::Ok(_), Out::Wrong(_)) => !c.sync,
            _ => false,
        };
        if panicked {
            b.insert("C15");
        } else {
            if hyper_expected {
                b.insert("C12");
            }
            match (&w, &g) {
                (SvcRes::Resp(_), SvcRes::Resp(_)) if !hyper_expected => {
                    b.insert("C13");
                    b.insert("C14");
                }
                (SvcRes::Resp(_), SvcRes::Err(_)) if !hyper_expected => {
                    b.insert("C13");
                    b.insert("C14");
                }
                (_, SvcRes::Stall) => {
                    b.insert("C14");
                    b.insert("C20");
                }
                (_, SvcRes::Panic(_)) => {
                    b.insert("C20");
                    if c.caught {
                        b.insert("C15");
                    }
                }
                _ => {
                    b.insert("C14");
                }
            }
            if c.caught && b.iter().all(|p| *p == "C14" || *p == "C13" || *p == "C12") {
                // may also be the wrapper's fault
                b.insert("C15");
            }
        }
        if c.req.method == "HEAD" && decoded {
            b.insert("C13");
        }
    }
    let ev = spec_events(ev);
    if ev != c.want_ev {
        what.push(format!("expected events {:?} got {:?}", c.want_ev, ev));
        let (wh, gh) = (calls(&c.want_ev), calls(&ev));
        if wh != gh {
            b.insert("C14");
            if wh.is_empty() {
                b.insert("C12");
            }
            if wh.len() == gh.len() {
                if let (Some(Ev::Handler(_, f1)), Some(Ev::Handler(_, f2))) = (wh.get(0), gh.get(0)) {
                    if f1 != f2 {
                        b.insert("C08");
                        b.insert("C13");
                    }
                }
            }
        }
        if caughts(&c.want_ev) != caughts(&ev) {
            b.insert("C15");
        }
        if b.is_empty() {
            b.insert("C14");
            b.insert("C07");
        }
    }
    if what.is_empty() {
        None
    } else {
        Some((b, what.join("; ")))
    }
}

struct Live {
    call: usize,
    s: Arc<Session>,
    fut: Option<Spawn<Observe>>,
    flag: Arc<Flag>,
    done: Option<SvcRes>,
    cancel_at: Option<usize>,
    steps: usize,
    cancelled: bool,
}
impl Live {
    fn poll(&mut self) {
        if self.done.is_some() {
            return;
        }
        self.flag.0.store(false, Ordering::SeqCst);
        let flag = self.flag.clone();
        match self.fut.as_mut().unwrap().poll_future_notify(&flag, 0) {
            Ok(Async::NotReady) => {}
            Ok(Async::Ready(r)) => self.done = Some(r),
            Err(()) => unreachable!(),
        }
    }
    /// False when nothing can make progress.
    fn step(&mut self) -> bool {
        self.steps += 1;
        if self.done.is_some() {
            return false;
        }
        if self.flag.0.load(Ordering::SeqCst) {
            self.poll();
            true
        } else {
            self.s.fire()
        }
    }
}

/// A request together with its expectation under a service with context `nonce`.
pub fn prepare(rng: &mut Rng, case: &CaseSpec, ti: usize, o: &Opts, nonce: u64, sync: bool, caught: bool) -> Option<(Call, Built)> {
    for n in 0..6 {
        let mut r = gen_req(rng, case, ti, &o.ro);
        r.nonce = nonce;
        if sync {
            // futures do not matter for the blocking handler
            r.plan.handler.pends.clear();
        }
        let b = match build(&r) {
            Some(b) => b,
            None => continue,
        };
        let x = expect_for(case, ti, &r, &b);
        let (want, want_ev) = svc_expect(&x.res, &x.events, &r.method, &b.fp, &r.plan, sync, caught);
        let c = Call {
            fp: b.fp.clone(),
            req: r,
            x,
            want,
            want_ev,
            sync,
            caught,
        };
        if n < 5 && !interesting(o, &c) {
            continue;
        }
        return Some((c, b));
    }
    None
}

fn interesting(o: &Opts, c: &Call) -> bool {
    if o.filter.is_empty() {
        return true;
    }
    let ok = if let Res::Ok(_) = c.x.res { true } else { false };
    o.filter.iter().any(|f| match f.as_str() {
        "decode-error" => match (&c.x.res, &c.want) {
            (Res::Err(_), _) => true,
            (_, SvcRes::Err(_)) => true,
            (Res::Ok(_), _) => c.req.plan.handler.out != Out::Ok,
            _ => false,
        },
        "ok" => ok,
        "head" => ok && c.req.method == "HEAD",
        "panic" => match &c.want {
            SvcRes::Panic(_) => true,
            _ => !caughts(&c.want_ev).is_empty(),
        },
        _ => true,
    })
}

pub fn note_call(st: &mut Stats, e: &Entry, c: &Call, polls: usize, events: usize, how: &str) {
    st.runs += 1;
    st.polls += polls;
    st.events += events;
    *st.classes.entry(c.want.class()).or_insert(0) += 1;
    st.distinct.insert(vspec::rng::hash_str(&format!(
        "{}/{}/{}/{}/{}/{:?}/{}/{}/{}/{}/{:?}",
        e.case,
        e.ti,
        c.x.route,
        c.x.res.class(),
        c.want.class(),
        std::mem::discriminant(&c.req.plan.handler.out),
        c.req.method == "HEAD",
        c.sync,
        c.caught,
        how,
        c.req.plan.handler.body.as_ref().map(|b| b.is_ok()),
    )));
    st.count(if c.sync { "sync_service" } else { "async_service" });
    if c.caught {
        st.count("caught_service");
    }
    if let Res::Ok(_) = c.x.res {
        st.count("handler_calls");
        if c.req.method == "HEAD" {
            st.count("head_responses");
            if c.req.plan.handler.body.is_some() {
                st.count("head_with_handler_body");
            }
        }
    } else if let SvcRes::Resp(_) = c.want {
        st.count("decode_errors_answered");
    }
    if let SvcRes::Err(_) = c.want {
        st.count("service_errors");
    }
    if !caughts(&c.want_ev).is_empty() {
        st.count("panics_caught");
    }
}

pub fn record_call(st: &mut Stats, e: &Entry, case: &CaseSpec, k: usize, c: Option<&Call>, blame: Vec<&str>, what: String, how: &str) {
    let decl = vspec::emit::emit_decl(case, e.ti);
    if st.mismatches.len() < 40 {
        st.mismatches.push(json!({
            "case": e.case, "type": e.ti, "req": k, "blame": blame, "what": what, "how": how,
            "request": c.map(|c| describe(&c.req)), "handler": c.map(|c| format!("{:?} panic handler {:?} sync={} caught={}", c.req.plan.handler, c.req.plan.panic, c.sync, c.caught)),
            "declaration": decl,
        }));
    } else {
        st.mismatches.push(json!({"case": e.case, "type": e.ti, "req": k, "blame": blame}));
    }
}

/// If plain decoding already differs from the model, the service is not to blame.
pub fn decode_differs(e: &Entry, case: &CaseSpec, c: &Call) -> Option<Mismatch> {
    let b = build(&c.req)?;
    let x = expect_for(case, e.ti, &c.req, &b);
    let (req, life, nonce, f) = (b.req, b.life.clone(), c.req.nonce, e.owned);
    let mut d = Driven::start(&b.session, || f(req, nonce, &life));
    while d.step() {}
    compare(case, e.ti, &c.req, &x, &d.result(), &b.session.events())
}

impl Registry {
    /// Interleaved calls of `AsyncService`s on a manual executor.
    pub fn run_svc(&self, o: &Opts) -> Stats {
        let mut st = Stats::default();
        for e in &self.entries {
            if let Some((c, t, _)) = o.only {
                if e.case != c || e.ti != t {
                    continue;
                }
            }
            let mk = match e.svc {
                Some(m) => m,
                None => continue,
            };
            let case = self.case(e.case);
            for k in 0..o.reqs {
                if let Some((_, _, q)) = o.only {
                    if k != q {
                        continue;
                    }
                }
                let mut rng = self.req_rng(o, e, k);
                self.svc_group(o, &mut st, e, &case, k, mk, &mut rng);
            }
        }
        st
    }

    fn svc_group(&self, o: &Opts, st: &mut Stats, e: &Entry, case: &CaseSpec, k: usize, mk: MakeSvc, rng: &mut Rng) {
        let life: Life = Arc::new(());
        // services with different contexts, alive at the same time
        let mut svcs: Vec<(u64, bool, Box<dyn AnySvc>)> = vec![];
        // `SyncService`s are here for what happens before their handlers are called
        let sync = rng.pct(25);
        for _ in 0..rng.range(1, 2) {
            let nonce = 1000 + (rng.u64() % 1_000_000) * 100;
            let caught = rng.pct(60);
            svcs.push((nonce, caught, mk(nonce, &life, sync, caught)));
        }
        for _ in 0..rng.below(3) {
            let i = rng.below(svcs.len());
            let how = rng.below(3);
            let d = svcs[i].2.dup(how);
            let (n, c) = (svcs[i].0, svcs[i].1);
            svcs.push((n, c, d));
            st.count("service_copies");
        }
        if svcs.len() > 1 && rng.pct(20) {
            // the original goes away
            svcs.remove(0);
        }
        let base = Arc::strong_count(&life);
        let mut calls: Vec<Call> = vec![];
        let mut todo: Vec<(usize, usize, HReq, Arc<Session>)> = vec![];
        for _ in 0..rng.weighted(&[2, 2, 2, 1, 1]) + 1 {
            let i = rng.below(svcs.len());
            if let Some((c, b)) = prepare(rng, case, e.ti, o, svcs[i].0, sync, svcs[i].1) {
                if let (true, Res::Ok(_)) = (sync, &c.x.res) {
                    continue;
                }
                todo.push((i, calls.len(), b.req, b.session));
                calls.push(c);
            }
        }
        let total = todo.len();
        if sync {
            for _ in 0..total {
                st.count("sync_calls_before_handler");
            }
        }
        if total > 1 {
            st.count("interleaved_groups");
        }
        let mut live: Vec<Live> = vec![];
        let mut finished: Vec<Live> = vec![];
        todo.reverse();
        loop {
            if !todo.is_empty() && (live.is_empty() || rng.pct(40)) {
                let (i, call, req, s) = todo.pop().unwrap();
                let svc = &mut svcs[i].2;
                match svc.ready() {
                    Ok(Async::Ready(())) => {}
                    x => record_call(st, e, case, k, Some(&calls[call]), vec!["C14", "C15"], format!("service is not ready: {:?}", x), "svc"),
                }
                let flag = Arc::new(Flag::default());
                flag.0.store(true, Ordering::SeqCst);
                let (fut, done) = match start(&s, &mut **svc, req) {
                    Ok(f) => (Some(executor::spawn(f)), None),
                    Err(r) => (None, Some(r)),
                };
                live.push(Live {
                    call,
                    s,
                    fut,
                    flag,
                    done,
                    cancel_at: if rng.pct(o.cancel) { Some(rng.below(8)) } else { None },
                    steps: 0,
                    cancelled: false,
                });
                continue;
            }
            if live.is_empty() {
                break;
            }
            let i = rng.below(live.len());
            if rng.pct(5) {
                live[i].poll();
            }
            if live[i].done.is_none() && live[i].cancel_at.map_or(false, |c| live[i].steps >= c) {
                let mut l = live.swap_remove(i);
                l.cancelled = true;
                finished.push(l);
                continue;
            }
            if !live[i].step() {
                let l = live.swap_remove(i);
                finished.push(l);
            }
        }
        // verdicts
        for l in &mut finished {
            let c = &calls[l.call];
            let ev = l.s.events();
            let polls = l.fut.as_ref().map_or(0, |f| f.get_ref().polls.load(Ordering::SeqCst));
            note_call(st, e, c, polls, ev.len(), if total > 1 { "interleaved" } else { "single" });
            if l.cancelled {
                st.count("cancelled");
                let se = spec_events(&ev);
                if se.len() > c.want_ev.len() || se[..] != c.want_ev[..se.len()] {
                    if decode_differs(e, case, c).is_none() {
                        record_call(st, e, case, k, Some(c), vec!["C14", "C21"], format!("abandoned call: events {:?} are no prefix of {:?}", se, c.want_ev), "svc");
                    }
                }
            } else {
                let got = l.done.clone().unwrap_or(SvcRes::Stall);
                if let Some((b, what)) = blame(c, &got, &ev) {
                    match decode_differs(e, case, c) {
                        Some(m) => record_call(st, e, case, k, Some(c), m.blame.into_iter().collect(), format!("decode: {}", m.what), "svc"),
                        None => record_call(st, e, case, k, Some(c), b.into_iter().collect(), what, "svc"),
                    }
                } else if st.samples.len() < 2 && c.want_ev.len() > 1 && k > 3 {
                    st.samples.push(json!({
                        "declaration": vspec::emit::emit_decl(case, e.ti), "request": describe(&c.req),
                        "expected_and_observed": got.text(), "events": format!("{:?}", c.want_ev),
                    }));
                }
            }
            // release
            l.s.close();
            l.fut = None;
            l.done = None;
            while l.s.fire() {}
            l.s.clear_wakes();
            let mut leaks = vec![];
            if Arc::strong_count(&l.s) != 1 {
                leaks.push(format!("request data still referenced {} times", Arc::strong_count(&l.s) - 1));
            }
            if let BodyKind::Stream(_) = c.req.body {
                if !l.s.stream_dropped.load(Ordering::SeqCst) {
                    leaks.push("request body not released".into());
                }
            }
            if l.s.resp_live.load(Ordering::SeqCst) != 0 {
                leaks.push("response body not released".into());
            }
            if !l.s.late().is_empty() {
                leaks.push(format!("activity after the call was over: {:?}", l.s.late()));
            }
            st.count("release_checked");
            if !leaks.is_empty() {
                record_call(st, e, case, k, Some(c), vec!["C21"], leaks.join("; "), "svc");
            }
        }
        let n = Arc::strong_count(&life);
        if n != base {
            record_call(st, e, case, k, calls.get(0), vec!["C21"], format!("context referenced {} times after all calls, {} before", n, base), "svc");
        }
        drop(svcs);
        if Arc::strong_count(&life) != 1 {
            record_call(st, e, case, k, calls.get(0), vec!["C21"], "context still referenced after all services are gone".into(), "svc");
        }
    }

    /// Many calls of both adapters at once on a thread pool.
    pub fn run_pool(&self, o: &Opts) -> Stats {
        let mut st = Stats::default();
        let pool = tokio_threadpool::Builder::new()
            .pool_size(4)
            .max_blocking(3)
            .keep_alive(Some(Duration::from_secs(30)))
            .build();
        let active: Arc<Mutex<Vec<Arc<Session>>>> = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicUsize::new(0));
        let (a2, s2) = (active.clone(), stop.clone());
        let pump = std::thread::spawn(move || {
            while s2.load(Ordering::SeqCst) == 0 {
                let v = a2.lock().unwrap().clone();
                let mut any = false;
                for s in &v {
                    any |= s.fire();
                }
                drop(v);
                if !any {
                    std::thread::sleep(Duration::from_micros(30));
                }
            }
        });
        for e in &self.entries {
            if let Some((c, t, _)) = o.only {
                if e.case != c || e.ti != t {
                    continue;
                }
            }
            let mk = match e.svc {
                Some(m) => m,
                None => continue,
            };
            let case = self.case(e.case);
            for k in 0..o.reqs {
                if let Some((_, _, q)) = o.only {
                    if k != q {
                        continue;
                    }
                }
                let mut rng = self.req_rng(o, e, k);
                if !self.pool_batch(o, &mut st, e, &case, k, mk, &mut rng, &pool, &active) {
                    // a hang was reported; the pool is of no use any more
                    return st;
                }
            }
        }
        stop.store(1, Ordering::SeqCst);
        let _ = pump.join();
        let _ = pool.shutdown_now().wait();
        st
    }

    #[allow(clippy::too_many_arguments)]
    fn pool_batch(
        &self,
        o: &Opts,
        st: &mut Stats,
        e: &Entry,
        case: &CaseSpec,
        k: usize,
        mk: MakeSvc,
        rng: &mut Rng,
        pool: &tokio_threadpool::ThreadPool,
        active: &Arc<Mutex<Vec<Arc<Session>>>>,
    ) -> bool {
        let life: Life = Arc::new(());
        let mut svcs: Vec<(u64, bool, bool, Box<dyn AnySvc>)> = vec![];
        for _ in 0..rng.range(2, 4) {
            let nonce = 1000 + (rng.u64() % 1_000_000) * 100;
            let (sync, caught) = (rng.pct(65), rng.pct(50));
            svcs.push((nonce, sync, caught, mk(nonce, &life, sync, caught)));
        }
        let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<SvcRes>, usize)>();
        let mut calls: Vec<(Call, Arc<Session>)> = vec![];
        let mut abandon = vec![];
        for _ in 0..rng.range(6, 24) {
            let i = rng.below(svcs.len());
            let (nonce, sync, caught) = (svcs[i].0, svcs[i].1, svcs[i].2);
            let (c, b) = match prepare(rng, case, e.ti, o, nonce, sync, caught) {
                Some(x) => x,
                None => continue,
            };
            let s = b.session.clone();
            let n = calls.len();
            active.lock().unwrap().push(s.clone());
            let how = rng.below(3);
            let mut svc = svcs[i].3.dup(how);
            let req = b.req;
            let stall = c.want == SvcRes::Stall;
            calls.push((c, s.clone()));
            let (ctx, crx) = futures::sync::oneshot::channel::<()>();
            // A task that is gone while it waits for blocking capacity loses that capacity for good
            // (tokio-threadpool); that history is a known finding with a scenario of its own.
            if stall || (!sync && rng.pct(12)) {
                abandon.push(ctx);
            } else {
                std::mem::forget(ctx);
            }
            let tx = tx.clone();
            pool.spawn(futures::future::lazy(move || {
                let started = match start(&s, &mut *svc, req) {
                    Ok(f) => f,
                    Err(r) => {
                        let _ = tx.send((n, Some(r), 0));
                        return Box::new(futures::future::ok(())) as Box<dyn Future<Item = (), Error = ()> + Send>;
                    }
                };
                let polls = started.polls.clone();
                Box::new(
                    started
                        .map(Some)
                        .select(crx.then(|_| Ok(None)))
                        .then(move |r| {
                            let v = match r {
                                Ok((v, _)) => v,
                                Err(_) => None,
                            };
                            let _ = tx.send((n, v, polls.load(Ordering::SeqCst)));
                            Ok(())
                        }),
                )
            }));
        }
        drop(tx);
        // let some calls start before abandoning others
        for _ in 0..rng.below(3) {
            std::thread::yield_now();
        }
        for a in abandon {
            let _ = a.send(());
        }
        st.count("batches");
        let mut got: BTreeMap<usize, (Option<SvcRes>, usize)> = BTreeMap::new();
        let mut last = Instant::now();
        while got.len() < calls.len() {
            match rx.recv_timeout(Duration::from_millis(500)) {
                Ok((n, r, p)) => {
                    got.insert(n, (r, p));
                    last = Instant::now();
                }
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                Err(_) => {
                    if last.elapsed() > Duration::from_secs(60) {
                        let missing: Vec<usize> = (0..calls.len()).filter(|n| !got.contains_key(n)).collect();
                        record_call(st, e, case, k, Some(&calls[missing[0]].0), vec!["C14", "C20", "C16"], format!("{} of {} concurrent calls made no progress for 60 s", missing.len(), calls.len()), "pool");
                        return false;
                    }
                }
            }
        }
        active.lock().unwrap().clear();
        for (n, (c, s)) in calls.iter().enumerate() {
            let ev = s.events();
            let (r, polls) = match got.remove(&n) {
                Some(x) => x,
                None => {
                    record_call(st, e, case, k, Some(c), vec!["C14", "C20"], "the call's task vanished".into(), "pool");
                    continue;
                }
            };
            note_call(st, e, c, polls, ev.len(), "pool");
            match r {
                None => {
                    st.count("abandoned");
                }
                Some(r) => {
                    if let Some((b, what)) = blame(c, &r, &ev) {
                        match decode_differs(e, case, c) {
                            Some(m) => record_call(st, e, case, k, Some(c), m.blame.into_iter().collect(), format!("decode: {}", m.what), "pool"),
                            None => record_call(st, e, case, k, Some(c), b.into_iter().collect(), what, "pool"),
                        }
                    }
                }
            }
        }
        true
    }
}
