//! `catch_unwind` and `make_service_by_cloning` around services of our own.

use crate::report::*;
use futures::executor::{self, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, IntoFuture, Poll, Stream};
use http::header::{HeaderName, HeaderValue};
use hyper::service::{MakeService, Service};
use hyper::{Body, Request, Response};
use hyperdrive::service::ServiceExt;
use hyperdrive::{BoxedError, DefaultFuture, Error};
use std::any::Any;
use std::collections::VecDeque;
use std::fmt;
use std::panic::{self, catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vspec::rng::Rng;

#[derive(Debug)]
struct MyErr(u64);
impl fmt::Display for MyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "my-err-{}", self.0)
    }
}
impl std::error::Error for MyErr {}

/// Marks one particular object.
#[derive(Clone, Debug)]
struct Tag(Arc<u64>);

#[derive(Clone, Debug, PartialEq)]
enum Payload {
    Str(u64),
    Text(u64),
    Own(u64),
    Num(u64),
    Unit,
}

struct Own(u64, Tag);
static STRS: [&str; 4] = ["static 0", "static 1", "static 2", "static 3"];

impl Payload {
    fn random(rng: &mut Rng, id: u64) -> Self {
        match rng.below(5) {
            0 => Payload::Str(id % 4),
            1 => Payload::Text(id),
            2 => Payload::Own(id),
            3 => Payload::Num(id),
            _ => Payload::Unit,
        }
    }
    fn throw(&self, tag: &Tag) -> ! {
        match self {
            Payload::Str(i) => panic::resume_unwind(Box::new(STRS[*i as usize])),
            Payload::Text(i) => panic!("text {}", i),
            Payload::Own(i) => panic::resume_unwind(Box::new(Own(*i, tag.clone()))),
            Payload::Num(i) => panic::resume_unwind(Box::new(*i)),
            Payload::Unit => panic::resume_unwind(Box::new(())),
        }
    }
    /// Whether `p` is the very payload this throws.
    fn is(&self, p: &(dyn Any + Send), tag: &Tag) -> bool {
        match self {
            Payload::Str(i) => p.downcast_ref::<&'static str>() == Some(&STRS[*i as usize]),
            Payload::Text(i) => p.downcast_ref::<String>() == Some(&format!("text {}", i)),
            Payload::Own(i) => p.downcast_ref::<Own>().map_or(false, |o| o.0 == *i && Arc::ptr_eq(&(o.1).0, &tag.0)),
            Payload::Num(i) => p.downcast_ref::<u64>() == Some(i),
            Payload::Unit => p.is::<()>(),
        }
    }
}

#[derive(Clone, Debug)]
enum End {
    Resp(u64),
    MyErr(u64),
    HyperErr(u16),
    Panic(Payload),
}

/// What one future does: wait as often as told, then end.
#[derive(Clone, Debug)]
struct Plan {
    /// panic (if `end` is one) or answer without a future of several polls
    at_once: bool,
    /// per wait: is the wake-up sent at once, or later by the driver?
    waits: Vec<bool>,
    end: End,
}

impl Plan {
    fn random(rng: &mut Rng, id: u64, panics: u32) -> Self {
        let end = if rng.pct(panics) {
            End::Panic(Payload::random(rng, id))
        } else {
            match rng.below(6) {
                0 => End::MyErr(id),
                1 => End::HyperErr(*rng.pick(&[404, 405, 400, 500, 503, 418])),
                _ => End::Resp(id),
            }
        };
        let n = if rng.pct(30) { 0 } else { rng.range(1, 4) };
        Plan {
            at_once: rng.pct(30),
            waits: (0..n).map(|_| rng.pct(40)).collect(),
            end,
        }
    }
    fn shape(&self) -> String {
        let e = match &self.end {
            End::Resp(_) => "response".to_string(),
            End::MyErr(_) => "error".into(),
            End::HyperErr(c) => format!("hyperdrive {}", c),
            End::Panic(p) => format!("panic {}", format!("{:?}", p).split('(').next().unwrap()),
        };
        if self.at_once {
            format!("at once {}", e)
        } else {
            format!("after {} {}", self.waits.len(), e)
        }
    }
}

/// Everything observed about one call.
#[derive(Default)]
struct Seen {
    calls: AtomicUsize,
    polls: AtomicUsize,
    after_end: AtomicUsize,
    bad_request: Mutex<Vec<String>>,
    handler: [AtomicUsize; 2],
    wrong_payload: AtomicUsize,
    wrong_handler: Mutex<Vec<String>>,
}

struct Call {
    id: u64,
    plan: Plan,
    /// plans of the inner and (when nested) the outer panic handler
    handlers: [Plan; 2],
    tag: Tag,
    seen: Seen,
    wake: Mutex<Option<futures::task::Task>>,
    /// the last wait was not notified
    owed: AtomicBool,
}

fn response(id: u64, tag: &Tag, stage: u8) -> Response<Body> {
    let mut rng = Rng::derive(id, "response", u64::from(stage));
    let mut r = Response::new(match rng.below(4) {
        0 => Body::empty(),
        1 => Body::from(format!("body {}", id)),
        2 => {
            let parts: Vec<Result<String, MyErr>> = (0..rng.range(1, 4)).map(|k| Ok(format!("part {} {}", id, k))).collect();
            Body::wrap_stream(futures::stream::iter_result(parts))
        }
        _ => Body::wrap_stream(futures::stream::iter_result(vec![Ok(format!("part {}", id)), Err(MyErr(id))])),
    });
    *r.status_mut() = http::StatusCode::from_u16(*rng.pick(&[200, 201, 204, 304, 404, 500, 599])).unwrap();
    *r.version_mut() = *rng.pick(&[http::Version::HTTP_10, http::Version::HTTP_11, http::Version::HTTP_2]);
    for k in 0..rng.below(4) {
        let n = HeaderName::from_bytes(format!("x-h{}", k % 2).as_bytes()).unwrap();
        r.headers_mut().append(n, HeaderValue::from_str(&format!("v{}-{}", id, k)).unwrap());
    }
    r.extensions_mut().insert(tag.clone());
    r
}

fn drain(b: Body) -> String {
    let mut s = executor::spawn(b);
    let mut out = String::new();
    loop {
        match s.wait_stream() {
            Some(Ok(c)) => out += &String::from_utf8_lossy(&c),
            Some(Err(e)) => {
                // hyper wraps the error of a wrapped stream
                return out + "|" + &e.to_string();
            }
            None => return out,
        }
    }
}

fn same_response(got: Response<Body>, want: Response<Body>) -> Result<(), String> {
    let show = |r: &Response<Body>| format!("{:?} {:?} {:?}", r.status(), r.version(), r.headers());
    let (a, b) = (show(&got), show(&want));
    if a != b {
        return Err(format!("response {} instead of {}", a, b));
    }
    match (got.extensions().get::<Tag>(), want.extensions().get::<Tag>()) {
        (Some(x), Some(y)) if Arc::ptr_eq(&x.0, &y.0) => (),
        _ => return Err("the response's extensions got lost".into()),
    }
    let (a, b) = (drain(got.into_body()), drain(want.into_body()));
    if a != b {
        return Err(format!("response body {:?} instead of {:?}", a, b));
    }
    Ok(())
}

fn same_result(got: Result<Response<Body>, BoxedError>, end: &End, tag: &Tag, stage: u8) -> Result<(), String> {
    match (got, end) {
        (Ok(r), End::Resp(id)) => same_response(r, response(*id, tag, stage)),
        (Err(e), End::MyErr(id)) => match e.downcast::<MyErr>() {
            Ok(e) if e.0 == *id => Ok(()),
            Ok(e) => Err(format!("error {} instead of {}", e.0, id)),
            Err(e) => Err(format!("error {:?} instead of MyErr({})", e, id)),
        },
        (Err(e), End::HyperErr(c)) => match e.downcast::<Error>() {
            Ok(e) if e.http_status().as_u16() == *c => Ok(()),
            Ok(e) => Err(format!("error {:?} instead of {}", e, c)),
            Err(e) => Err(format!("error {:?} instead of a hyperdrive error {}", e, c)),
        },
        (Ok(r), e) => Err(format!("response {:?} instead of {:?}", r, e)),
        (Err(r), e) => Err(format!("error {:?} instead of {:?}", r, e)),
    }
}

struct Fut {
    call: Arc<Call>,
    stage: u8,
    at: usize,
    ended: bool,
}

fn plan_of(c: &Call, stage: u8) -> &Plan {
    match stage {
        0 => &c.plan,
        n => &c.handlers[n as usize - 1],
    }
}

fn finish(c: &Call, stage: u8) -> Result<Response<Body>, BoxedError> {
    match &plan_of(c, stage).end {
        End::Resp(id) => Ok(response(*id, &c.tag, stage)),
        End::MyErr(id) => Err(Box::new(MyErr(*id))),
        End::HyperErr(405) => Err(Error::wrong_method(vec![&http::Method::GET]).into()),
        End::HyperErr(s) => Err(Error::from_status(http::StatusCode::from_u16(*s).unwrap()).into()),
        End::Panic(p) => p.throw(&c.tag),
    }
}

impl Future for Fut {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        let c = self.call.clone();
        if self.ended {
            c.seen.after_end.fetch_add(1, Ordering::SeqCst);
        }
        c.seen.polls.fetch_add(1, Ordering::SeqCst);
        let plan = plan_of(&c, self.stage);
        if let Some(now) = plan.waits.get(self.at) {
            self.at += 1;
            let t = futures::task::current();
            if *now {
                t.notify();
            } else {
                c.owed.store(true, Ordering::SeqCst);
            }
            *c.wake.lock().unwrap() = Some(t);
            return Ok(Async::NotReady);
        }
        self.ended = true;
        finish(&c, self.stage).map(Async::Ready)
    }
}

fn start(c: &Arc<Call>, stage: u8) -> DefaultFuture<Response<Body>, BoxedError> {
    if plan_of(c, stage).at_once {
        return Box::new(finish(c, stage).into_future());
    }
    Box::new(Fut {
        call: c.clone(),
        stage,
        at: 0,
        ended: false,
    })
}

#[derive(Clone, Debug)]
enum Ready {
    Yes,
    No,
    Err(u64),
}

/// The wrapped service.
struct Inner {
    ready: Arc<Mutex<VecDeque<Ready>>>,
    asked: Arc<AtomicUsize>,
    calls: Arc<Mutex<Vec<Arc<Call>>>>,
    clones: Arc<AtomicUsize>,
}
impl Clone for Inner {
    fn clone(&self) -> Self {
        self.clones.fetch_add(1, Ordering::SeqCst);
        Inner {
            ready: self.ready.clone(),
            asked: self.asked.clone(),
            calls: self.calls.clone(),
            clones: self.clones.clone(),
        }
    }
}

fn request(id: u64) -> Request<Body> {
    let mut rng = Rng::derive(id, "request", 0);
    let mut r = Request::new(Body::wrap_stream(futures::stream::iter_ok::<_, MyErr>(
        (0..rng.below(3)).map(|k| format!("req {} {}", id, k)).collect::<Vec<_>>(),
    )));
    *r.method_mut() = http::Method::from_bytes(rng.pick(&["GET", "HEAD", "POST", "X-Y", "get"]).as_bytes()).unwrap();
    *r.uri_mut() = format!("/{}/%20//x?id={}", rng.pick(&["a", "b"]), id).parse().unwrap();
    *r.version_mut() = *rng.pick(&[http::Version::HTTP_10, http::Version::HTTP_11, http::Version::HTTP_2]);
    for k in 0..rng.below(4) {
        let n = HeaderName::from_bytes(format!("x-q{}", k % 2).as_bytes()).unwrap();
        r.headers_mut().append(n, HeaderValue::from_str(&format!("v{}-{}", id, k)).unwrap());
    }
    r.extensions_mut().insert(id);
    r
}

impl Service for Inner {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.asked.fetch_add(1, Ordering::SeqCst);
        let next = self.ready.lock().unwrap().pop_front().unwrap_or(Ready::Yes);
        match next {
            Ready::Yes => Ok(Async::Ready(())),
            Ready::No => Ok(Async::NotReady),
            Ready::Err(id) => Err(Box::new(MyErr(id))),
        }
    }
    fn call(&mut self, req: Request<Body>) -> Self::Future {
        let id = req.extensions().get::<u64>().cloned();
        let c = {
            let calls = self.calls.lock().unwrap();
            let c = calls.iter().find(|c| Some(c.id) == id);
            match c {
                Some(c) => c.clone(),
                None => return Box::new(Err(MyErr(0).into()).into_future()),
            }
        };
        c.seen.calls.fetch_add(1, Ordering::SeqCst);
        let want = request(c.id);
        let show = |r: &Request<Body>| format!("{:?} {:?} {:?} {:?}", r.method(), r.uri(), r.version(), r.headers());
        let (a, b) = (show(&req), show(&want));
        if a != b {
            c.seen.bad_request.lock().unwrap().push(format!("request {} instead of {}", a, b));
        }
        let (a, b) = (drain(req.into_body()), drain(want.into_body()));
        if a != b {
            c.seen.bad_request.lock().unwrap().push(format!("request body {:?} instead of {:?}", a, b));
        }
        start(&c, 0)
    }
}

struct Wake(AtomicUsize);
impl Notify for Wake {
    fn notify(&self, _: usize) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// The service under test; level 1 or 2 layers of `catch_unwind`.
trait Outer: Send {
    fn ready(&mut self) -> Poll<(), BoxedError>;
    fn go(&mut self, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError>;
    fn dup(&self) -> Box<dyn Outer>;
    fn made(&self) -> Box<dyn Outer>;
}
struct O<S>(S);
impl<S> Outer for O<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
    S::Future: Send + 'static,
{
    fn ready(&mut self) -> Poll<(), BoxedError> {
        Service::poll_ready(&mut self.0)
    }
    fn go(&mut self, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError> {
        Box::new(self.0.call(r))
    }
    fn dup(&self) -> Box<dyn Outer> {
        Box::new(O(self.0.clone()))
    }
    fn made(&self) -> Box<dyn Outer> {
        let mut m = self.0.clone().make_service_by_cloning();
        // several services from one factory, for any kind of connection
        let _first = m.make_service("connection");
        match m.make_service(7u8).wait() {
            Ok(s) => Box::new(O(s)),
            Err(e) => panic!("make_service failed: {}", e),
        }
    }
}

fn handler(
    calls: &Arc<Mutex<Vec<Arc<Call>>>>,
    current: &Arc<Mutex<Option<Arc<Call>>>>,
    stage: u8,
) -> impl Fn(Box<dyn Any + Send>) -> DefaultFuture<Response<Body>, BoxedError> + Send + Sync + 'static {
    let (_calls, current) = (calls.clone(), current.clone());
    move |p| {
        let c = current.lock().unwrap().clone().expect("no call in progress");
        c.seen.handler[stage as usize - 1].fetch_add(1, Ordering::SeqCst);
        match &plan_of(&c, stage - 1).end {
            End::Panic(q) if q.is(&*p, &c.tag) => (),
            End::Panic(q) => {
                c.seen.wrong_payload.fetch_add(1, Ordering::SeqCst);
                c.seen.wrong_handler.lock().unwrap().push(format!("the payload is not {:?} (String: {:?})", q, p.downcast_ref::<String>()));
            }
            _ => c.seen.wrong_handler.lock().unwrap().push("the panic handler was called without a panic".into()),
        }
        start(&c, stage)
    }
}

struct Flight {
    call: Arc<Call>,
    fut: Option<Spawn<DefaultFuture<Response<Body>, BoxedError>>>,
    wake: Arc<Wake>,
    seen_wakes: usize,
    first: bool,
}

enum Out {
    Pending,
    Done(Result<Response<Body>, BoxedError>),
    Escaped(Box<dyn Any + Send>),
    /// Abandoned by the driver
    Dropped,
}

fn judge(r: &mut Report, k: usize, depth: u8, c: &Call, out: Out) {
    let mut bad = vec![];
    // the last stage that is reached
    let mut last = 0u8;
    while last < depth {
        match plan_of(c, last).end {
            End::Panic(_) => last += 1,
            _ => break,
        }
    }
    let dropped = if let Out::Dropped = out { true } else { false };
    if c.seen.calls.load(Ordering::SeqCst) != 1 {
        bad.push(format!("the wrapped service was called {} times", c.seen.calls.load(Ordering::SeqCst)));
    }
    for s in 1..=depth {
        let n = c.seen.handler[s as usize - 1].load(Ordering::SeqCst);
        let want = if s <= last { 1 } else { 0 };
        if n != want && !(dropped && n < want) {
            bad.push(format!("panic handler {} was called {} times, expected {}", s, n, want));
        }
    }
    bad.extend(c.seen.wrong_handler.lock().unwrap().iter().cloned());
    bad.extend(c.seen.bad_request.lock().unwrap().iter().cloned());
    if c.seen.after_end.load(Ordering::SeqCst) > 0 {
        bad.push("a future was polled again after it had ended".into());
    }
    let end = &plan_of(c, last).end;
    match out {
        Out::Pending => bad.push("never completed".into()),
        Out::Dropped => (),
        Out::Escaped(p) => match end {
            // a panic of the last handler is not caught again
            End::Panic(q) if last == depth && q.is(&*p, &c.tag) => (),
            _ => bad.push(format!("a panic escaped ({:?}), expected {:?}", p.downcast_ref::<String>(), end)),
        },
        Out::Done(got) => {
            if let Err(e) = same_result(got, end, &c.tag, last) {
                bad.push(e);
            }
        }
    }
    let shape = format!(
        "depth {} {}: {}{}",
        depth,
        if dropped { "dropped" } else { "run" },
        plan_of(c, 0).shape(),
        (1..=last).map(|s| format!(" -> {}", plan_of(c, s).shape())).collect::<String>()
    );
    if !bad.is_empty() {
        r.bad(&["C15"], format!("round {} call {} ({}): {}", k, c.id, shape, bad.join("; ")));
    }
    r.runs += 1;
    r.events += c.seen.polls.load(Ordering::SeqCst) + 1;
    r.class(&shape);
    if last > 0 {
        r.count("panics caught", last as usize);
    } else {
        r.count("passed through", 1);
    }
    if r.runs % 1009 == 0 {
        r.sample(serde_json::json!({"call": c.id, "shape": shape}));
    }
}

fn round(r: &mut Report, seed: u64, k: usize) {
    let mut rng = Rng::derive(seed, "catch", k as u64);
    let calls = Arc::new(Mutex::new(vec![]));
    let current: Arc<Mutex<Option<Arc<Call>>>> = Arc::new(Mutex::new(None));
    let inner = Inner {
        ready: Arc::new(Mutex::new(VecDeque::new())),
        asked: Arc::new(AtomicUsize::new(0)),
        calls: calls.clone(),
        clones: Arc::new(AtomicUsize::new(0)),
    };
    let depth = if rng.pct(70) { 1 } else { 2 };
    let one = inner.clone().catch_unwind(handler(&calls, &current, 1));
    let svc: Box<dyn Outer> = if depth == 1 {
        Box::new(O(one))
    } else {
        Box::new(O(one.catch_unwind(handler(&calls, &current, 2))))
    };
    let mut svcs = vec![svc];
    for _ in 0..rng.below(3) {
        let s = if rng.pct(50) { svcs[0].dup() } else { svcs[0].made() };
        svcs.push(s);
    }
    let total = rng.range(1, 24);
    let at_once = rng.range(1, 6);
    let panics = *rng.pick(&[0, 30, 60, 90]);
    let mut started = 0;
    let mut fl: Vec<Flight> = vec![];
    let mut steps = 0;
    while started < total || !fl.is_empty() {
        steps += 1;
        if steps > 20_000 {
            for f in fl.drain(..) {
                judge(r, k, depth, &f.call, Out::Pending);
            }
            break;
        }
        // readiness passes through, in any state
        if rng.pct(25) {
            let n = rng.range(1, 3);
            let plan: Vec<Ready> = (0..n)
                .map(|i| match rng.below(3) {
                    0 => Ready::Yes,
                    1 => Ready::No,
                    _ => Ready::Err(i as u64 + 1000 * k as u64),
                })
                .collect();
            *inner.ready.lock().unwrap() = plan.iter().cloned().collect();
            for p in plan {
                let before = inner.asked.load(Ordering::SeqCst);
                let i = rng.below(svcs.len());
                let got = svcs[i].ready();
                r.count("poll_ready", 1);
                let ok = match (&got, &p) {
                    (Ok(Async::Ready(())), Ready::Yes) | (Ok(Async::NotReady), Ready::No) => true,
                    (Err(e), Ready::Err(id)) => e.downcast_ref::<MyErr>().map_or(false, |e| e.0 == *id),
                    _ => false,
                };
                if !ok || inner.asked.load(Ordering::SeqCst) == before {
                    r.bad(&["C15"], format!("round {}: poll_ready gave {:?} where the wrapped service gives {:?}", k, got, p));
                }
            }
            inner.ready.lock().unwrap().clear();
        }
        if started < total && fl.len() < at_once && rng.pct(50) {
            let id = seed * 1_000_000 + k as u64 * 100 + started as u64;
            started += 1;
            let c = Arc::new(Call {
                id,
                plan: Plan::random(&mut rng, id, panics),
                handlers: [Plan::random(&mut rng, id, 20), Plan::random(&mut rng, id, 20)],
                tag: Tag(Arc::new(id)),
                seen: Seen::default(),
                wake: Mutex::new(None),
                owed: AtomicBool::new(false),
            });
            calls.lock().unwrap().push(c.clone());
            *current.lock().unwrap() = Some(c.clone());
            let i = rng.below(svcs.len());
            let s = &mut svcs[i];
            match catch_unwind(AssertUnwindSafe(|| s.go(request(id)))) {
                Err(p) => {
                    *current.lock().unwrap() = None;
                    judge(r, k, depth, &c, Out::Escaped(p));
                }
                Ok(f) => fl.push(Flight {
                    call: c,
                    fut: Some(executor::spawn(f)),
                    wake: Arc::new(Wake(AtomicUsize::new(0))),
                    seen_wakes: 0,
                    first: true,
                }),
            }
            *current.lock().unwrap() = None;
            continue;
        }
        if fl.is_empty() {
            continue;
        }
        let i = rng.below(fl.len());
        if rng.pct(2) {
            // abandoned: nothing is called any more
            let mut f = fl.swap_remove(i);
            let before: Vec<usize> = f.call.seen.handler.iter().map(|h| h.load(Ordering::SeqCst)).collect();
            f.fut = None;
            let after: Vec<usize> = f.call.seen.handler.iter().map(|h| h.load(Ordering::SeqCst)).collect();
            if before != after {
                r.bad(&["C15", "C21"], format!("round {}: dropping the future called a panic handler", k));
            }
            judge(r, k, depth, &f.call, Out::Dropped);
            continue;
        }
        let f = &mut fl[i];
        let wakes = f.wake.0.load(Ordering::SeqCst);
        if !(f.first || wakes > f.seen_wakes) {
            // give the wake-up that is owed, and see whether it arrives
            if f.call.owed.swap(false, Ordering::SeqCst) {
                if let Some(t) = f.call.wake.lock().unwrap().take() {
                    t.notify();
                }
                if f.wake.0.load(Ordering::SeqCst) == wakes {
                    r.bad(&["C15"], format!("round {}: a wake-up of the wrapped service got lost", k));
                }
            }
            if !rng.pct(10) {
                continue;
            }
        }
        f.first = false;
        f.seen_wakes = wakes;
        *current.lock().unwrap() = Some(f.call.clone());
        let nh: NotifyHandle = f.wake.clone().into();
        let fut = f.fut.as_mut().unwrap();
        let p = catch_unwind(AssertUnwindSafe(|| fut.poll_future_notify(&nh, 0)));
        *current.lock().unwrap() = None;
        let out = match p {
            Err(p) => Out::Escaped(p),
            Ok(Ok(Async::NotReady)) => continue,
            Ok(Ok(Async::Ready(x))) => Out::Done(Ok(x)),
            Ok(Err(e)) => Out::Done(Err(e)),
        };
        let f = fl.swap_remove(i);
        judge(r, k, depth, &f.call, out);
    }
}

pub fn run(o: &mut Opts, r: &mut Report) {
    for k in 0..o.n {
        round(r, o.seed, k);
    }
}
