//! What stays behind: the bytes, threads and file descriptors in use must not grow with the number
//! of requests that were decoded or answered, however they ended.

use crate::report::*;
use futures::executor::{self, Notify};
use futures::{future, Async, Future, Poll, Stream};
use hyper::service::Service;
use hyper::{Body, Request, Response};
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::Arc;

pub struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

struct Quiet;
impl Notify for Quiet {
    fn notify(&self, _: usize) {}
}

#[derive(Clone, RequestContext)]
struct Ctx {
    #[as_ref]
    db: Db,
    name: String,
    token: Token,
}

/// Something whose holders are counted.
#[derive(Clone)]
struct Token(Arc<()>);
fn token() -> (Token, Arc<()>) {
    let a = Arc::new(());
    (Token(a.clone()), a)
}
#[derive(Clone, RequestContext)]
struct Db(Arc<Vec<u8>>);

fn ctx() -> Ctx {
    Ctx { db: Db(Arc::new(vec![7; 100])), name: "n".repeat(40), token: token().0 }
}

struct Gate;
impl Guard for Gate {
    type Context = Db;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(r: &Arc<http::Request<()>>, _: &Db) -> Self::Result {
        match r.headers().get("x-gate").map(|v| v.as_bytes()) {
            Some(b"hang") => Box::new(future::empty()),
            Some(b"fail") => Box::new(future::err("guard says no".into())),
            Some(b"error") => hyperdrive::Error::with_source(http::StatusCode::FORBIDDEN, "no").into_future(),
            Some(b"panic") => panic!("guard panics"),
            Some(b"later") => Box::new(future::lazy(|| -> Result<Gate, BoxedError> { panic!("guard panics") })),
            _ => Box::new(future::ok(Gate)),
        }
    }
}

/// Keeps the whole request.
struct Keeps(Arc<http::Request<()>>);
impl Guard for Keeps {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result {
        Ok(Keeps(r.clone()))
    }
}

/// Never reads the body.
struct Raw(Body);
impl FromBody for Raw {
    type Context = Ctx;
    type Result = Result<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, b: Body, _: &Ctx) -> Self::Result {
        Ok(Raw(b))
    }
}

#[derive(FromRequest)]
#[context(Ctx)]
#[allow(dead_code)]
enum Route {
    #[get("/")]
    #[options("*")]
    Index,
    #[get("/lit.eral/{a}/x/{b}")]
    Two { a: String, b: u64 },
    #[get("/g/{n}")]
    #[delete("/g/{n}")]
    Guarded { n: u64, k: Keeps, g: Gate },
    #[post("/json/{n}")]
    Json {
        n: u64,
        g: Gate,
        #[body]
        b: Json<serde_json::Value>,
    },
    #[post("/form")]
    Form {
        #[query_params]
        q: Vec<(String, u64)>,
        #[body]
        b: HtmlForm<Vec<(String, String)>>,
    },
    #[put("/raw/{rest...}")]
    Raw {
        rest: String,
        #[body]
        b: Raw,
    },
    #[get("/q")]
    Query {
        #[query_params]
        q: Q,
    },
    #[patch("/fwd/{n}")]
    Forward {
        n: u64,
        #[forward]
        i: Inner,
    },
    Fallback {
        #[forward]
        i: Inner,
    },
}

#[derive(FromRequest)]
#[context(Ctx)]
#[allow(dead_code)]
enum Inner {
    #[patch("/fwd/{s}")]
    Fwd {
        s: String,
        #[body]
        b: Json<Vec<u64>>,
    },
    #[put("/g/{s}")]
    G { s: String, k: Keeps },
    #[get("/inner/{s}")]
    Inner { s: String },
}

#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Q {
    n: u64,
    text: Option<String>,
}

const KINDS: &[&str] = &[
    "literal", "star", "two", "guard", "head", "query", "query absent", "query bad", "json", "json big", "json bad", "json broken", "json hangs", "form", "form bad",
    "raw", "raw hangs", "forward", "forward bad", "fallback", "404", "404 conversion", "404 long", "405", "405 two", "405 merged", "405 odd", "gate fail", "gate error",
    "gate panic", "gate later", "gate hang", "headers", "extensions", "handler fail", "handler error", "handler panic", "handler hang", "handler body",
];

struct Ext(#[allow(dead_code)] Vec<u8>);

/// `i` makes requests different which otherwise have the same shape.
fn request(kind: &str, i: usize, keep: &mut Vec<hyper::body::Sender>) -> Request<Body> {
    let n = 10_000_000 + (i * 7919) % 80_000_000;
    let mut b = Request::builder();
    let none = Body::empty;
    let r = match kind {
        "literal" => b.uri("/").body(none()),
        "star" => b.method("OPTIONS").uri("*").body(none()),
        "two" => b.uri(format!("/lit.eral/t{}/x/{}", n, n)).body(none()),
        "guard" => b.uri(format!("/g/{}", n)).body(none()),
        "head" => b.method("HEAD").uri(format!("/g/{}", n)).body(none()),
        "query" => b.uri(format!("/q?n={}&text=%41{}", n, n)).body(none()),
        "query absent" => b.uri("/q").body(none()),
        "query bad" => b.uri(format!("/q?n=x{}", n)).body(none()),
        "json" => b.method("POST").uri(format!("/json/{}", n)).body(Body::from(format!("{{\"k{}\":[{},\"{}\"]}}", n, n, n))),
        "json big" => b.method("POST").uri(format!("/json/{}", n)).body(Body::from(format!("\"{}{}\"", n, "x".repeat(20_000)))),
        "json bad" => b.method("POST").uri(format!("/json/{}", n)).body(Body::from(format!("[{},", n))),
        "json broken" => {
            let (mut tx, body) = Body::channel();
            let _ = tx.send_data(format!("[{}", n).into());
            tx.abort();
            b.method("POST").uri(format!("/json/{}", n)).body(body)
        }
        "json hangs" => {
            let (mut tx, body) = Body::channel();
            let _ = tx.send_data(format!("[{}", n).into());
            keep.push(tx);
            b.method("POST").uri(format!("/json/{}", n)).body(body)
        }
        "form" => b.method("POST").uri(format!("/form?a={}", n)).body(Body::from(format!("k{}={}&l=%20", n, n))),
        "form bad" => b.method("POST").uri("/form?a=1").body(Body::wrap_stream(futures::stream::once::<&'static str, _>(Err("broken")))),
        "raw" => b.method("PUT").uri(format!("/raw/{}/x/{}", n, n)).body(Body::from("y".repeat(1000))),
        "raw hangs" => {
            let (tx, body) = Body::channel();
            keep.push(tx);
            b.method("PUT").uri(format!("/raw/{}", n)).body(body)
        }
        "forward" => b.method("PATCH").uri(format!("/fwd/{}", n)).body(Body::from(format!("[{}]", n))),
        "forward bad" => b.method("PATCH").uri(format!("/fwd/{}", n)).body(Body::from("[")),
        "fallback" => b.uri(format!("/inner/{}", n)).body(none()),
        "404" => b.uri(format!("/none/{}/{}", n, n)).body(none()),
        "404 conversion" => b.uri(format!("/g/x{}", n)).body(none()),
        "404 long" => b.uri(format!("/{}{}", "z/".repeat(1000), n)).body(none()),
        "405" => b.method("PUT").uri("/q").body(none()),
        "405 two" => b.method("PATCH").uri(format!("/lit.eral/{}/x/{}", n, n)).body(none()),
        "405 merged" => b.method("PATCH").uri(format!("/g/{}", n)).body(none()),
        "405 odd" => b.method(format!("M{}", n).as_str()).uri("/").body(none()),
        "gate fail" | "gate error" | "gate panic" | "gate later" | "gate hang" => b.uri(format!("/g/{}", n)).header("x-gate", &kind[5..]).body(none()),
        "headers" => {
            for k in 0..40 {
                b.header(format!("x-h{}-{}", k, n).as_str(), format!("v{}", n).as_str());
            }
            b.uri(format!("/g/{}", n)).body(none())
        }
        "extensions" => b.uri(format!("/g/{}", n)).extension(Ext(vec![1; 500])).body(none()),
        k => b.uri("/").header("x-handler", k.split(' ').nth(1).unwrap()).body(none()),
    };
    r.unwrap()
}

/// Polls until the result is there, or `left` times.
struct Limited<F>(F, usize);
impl<F: Future> Future for Limited<F> {
    type Item = Option<F::Item>;
    type Error = F::Error;
    fn poll(&mut self) -> Poll<Self::Item, F::Error> {
        if self.1 == 0 {
            return Ok(Async::Ready(None));
        }
        self.1 -= 1;
        match self.0.poll()? {
            Async::Ready(x) => Ok(Async::Ready(Some(x))),
            Async::NotReady => {
                futures::task::current().notify();
                Ok(Async::NotReady)
            }
        }
    }
}

fn by_hand<F: Future>(f: F, i: usize) -> &'static str {
    let mut s = executor::spawn(f);
    // every now and then it is dropped before it ran
    for _ in 0..(if i % 7 == 6 { 0 } else { 6 }) {
        match s.poll_future_notify(&Arc::new(Quiet), 0) {
            Ok(Async::Ready(_)) => return "done",
            Err(_) => return "failed",
            Ok(Async::NotReady) => {}
        }
    }
    "dropped"
}

fn reply(_: Route, orig: Arc<http::Request<()>>) -> Response<Body> {
    match orig.headers().get("x-handler").map(|v| v.as_bytes()) {
        Some(b"panic") => panic!("handler panics"),
        _ => Response::new(Body::from("b".repeat(100))),
    }
}

fn answer(route: Route, orig: Arc<http::Request<()>>) -> DefaultFuture<Response<Body>, BoxedError> {
    match orig.headers().get("x-handler").map(|v| v.as_bytes()) {
        Some(b"hang") => Box::new(future::empty()),
        Some(b"fail") => Box::new(future::err("handler says no".into())),
        Some(b"error") => hyperdrive::Error::from_status(http::StatusCode::CONFLICT).into_future(),
        _ => Box::new(future::ok(reply(route, orig))),
    }
}

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}

/// Bytes (per request), threads and file descriptors added in each of the last windows.
fn measure(windows: &[usize], mut one: impl FnMut(usize, bool)) -> (Vec<f64>, isize, isize) {
    let mut i = 0;
    let mut grown = vec![];
    let mut others = (0, 0);
    for (w, n) in windows.iter().enumerate() {
        let live = LIVE.load(Ordering::SeqCst);
        let before = (entries("/proc/self/task"), entries("/proc/self/fd"));
        for k in 0..*n {
            one(i, k + 1 == *n);
            i += 1;
        }
        if w > 0 {
            grown.push((LIVE.load(Ordering::SeqCst) - live) as f64 / *n as f64);
            let now = (entries("/proc/self/task"), entries("/proc/self/fd"));
            others = (others.0.max(now.0 as isize - before.0 as isize), others.1.max(now.1 as isize - before.1 as isize));
        }
    }
    (grown, others.0, others.1)
}

/// What grew, if anything did in each of the windows.
fn verdict(what: &str, windows: &[usize], m: &(Vec<f64>, isize, isize)) -> Option<String> {
    // a thread pool that is gone leaves some pages of deferred garbage behind
    let last = *windows.last().unwrap();
    let most = if what.starts_with("Sync") { 40_000.0 / last as f64 } else { 0.0 };
    let least = m.0.iter().cloned().fold(std::f64::INFINITY, f64::min);
    if least >= 4.0 && *m.0.last().unwrap() >= most {
        return Some(format!("memory in use grows by {:?} bytes per request in successive runs of {:?} requests", m.0, &windows[1..]));
    }
    for (name, k) in &[("threads", m.1), ("file descriptors", m.2)] {
        if *k >= last as isize / 4 {
            return Some(format!("{} more {} within {} requests", k, name, last));
        }
    }
    None
}

fn judge(r: &mut Report, what: &str, kind: &str, windows: &[usize], one: &mut dyn FnMut(usize, bool)) {
    let mut w = windows.to_vec();
    r.class(&format!("{} {}", what, kind));
    // what has to be there in runs of every length is no accident
    for attempt in 0.. {
        let m = measure(&w, |i, last| one(i, last));
        let n: usize = w.iter().sum();
        r.runs += n;
        r.events += n;
        r.count("growth_windows", m.0.len());
        match verdict(what, &w, &m) {
            None => return,
            Some(v) if attempt == 2 => return r.bad(&["C21"], format!("{}, requests of kind \"{}\": {}", what, kind, v)),
            Some(_) => {
                r.count("growth_measured_again", 1);
                for n in &mut w {
                    *n *= 3;
                }
            }
        }
    }
}

/// Panics instead of giving a future, with a payload that is counted.
#[derive(Clone)]
struct Bursts(Token, bool);
impl Service for Bursts {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn call(&mut self, _: Request<Body>) -> Self::Future {
        let t = self.0.clone();
        if self.1 {
            std::panic::panic_any(t);
        }
        Box::new(future::lazy(move || -> Result<Response<Body>, BoxedError> { std::panic::panic_any(t) }))
    }
}

/// Whatever was handed over (handlers, contexts, request extensions, panic payloads, bodies) is let
/// go once the futures and the service are gone.
fn let_go(r: &mut Report, kind: &str, what: &str, rounds: usize, mut go: impl FnMut(&Token, usize)) {
    let (t, held) = token();
    for i in 0..rounds {
        go(&t, i);
    }
    drop(t);
    r.runs += rounds;
    r.events += rounds;
    r.count("let_go", 1);
    r.class(&format!("{} {} lets go", what, kind));
    let n = Arc::strong_count(&held) - 1;
    if n > 0 {
        r.bad(&["C21"], format!("{}, {} requests of kind \"{}\": what was handed over is still held {} times after everything else is gone", what, rounds, kind, n));
    }
}

fn releases(kind: &str, r: &mut Report) {
    let mut keep = vec![];
    let mut req = |t: &Token, i: usize, which: usize| {
        keep.clear();
        let mut q = request(kind, i, &mut keep);
        if which == 2 {
            q.extensions_mut().insert(t.clone());
        }
        q
    };
    let with = |t: &Token, which: usize| Ctx { token: if which == 1 { t.clone() } else { token().0 }, ..ctx() };
    // what the token is given with
    for (which, name) in ["handler", "context", "request", "body", "panic handler"].iter().enumerate() {
        if which == 1 || which == 2 {
            let_go(r, kind, &format!("from_request ({})", name), 8, |t, i| {
                let q = req(t, i, which);
                let c = with(t, which);
                let _ = catch_unwind(AssertUnwindSafe(|| by_hand(Route::from_request(q, c), i)));
            });
            if !kind.ends_with("hang") && !kind.ends_with("hangs") {
                let_go(r, kind, &format!("from_request_sync ({})", name), 3, |t, i| {
                    let q = req(t, i, which);
                    let c = with(t, which);
                    let _ = catch_unwind(AssertUnwindSafe(|| Route::from_request_sync(q, c).is_ok()));
                });
            }
        }
        let inner = |t: &Token| {
            let h = if which == 0 { Some(t.clone()) } else { None };
            let b = if which == 3 { Some(t.clone()) } else { None };
            AsyncService::with_context(
                move |route: Route, orig: Arc<http::Request<()>>| -> DefaultFuture<Response<Body>, BoxedError> {
                    let _ = &h;
                    let b = b.clone();
                    Box::new(answer(route, orig).map(move |_| match b {
                        Some(b) => Response::new(Body::wrap_stream(futures::stream::once::<&'static str, BoxedError>(Ok("x")).map(move |x| {
                            let _ = &b;
                            x
                        }))),
                        None => Response::new(Body::empty()),
                    }))
                },
                with(t, which),
            )
        };
        if which < 4 {
            let_go(r, kind, &format!("AsyncService ({})", name), 8, |t, i| {
                let mut s = inner(t);
                let mut other = s.clone();
                for k in 0..2 {
                    let q = req(t, i, which);
                    let _ = catch_unwind(AssertUnwindSafe(|| by_hand(s.call(q), i + k)));
                    let q = req(t, i, which);
                    let _ = catch_unwind(AssertUnwindSafe(|| by_hand(other.call(q), i + k)));
                }
            });
        }
        let_go(r, kind, &format!("AsyncService with catch_unwind ({})", name), 8, |t, i| {
            let p = if which == 4 { Some(t.clone()) } else { None };
            let mut s = inner(t).catch_unwind(move |_| {
                let _ = &p;
                Err::<Response<Body>, BoxedError>("caught".into())
            });
            let mut other = s.clone();
            for k in 0..2 {
                let q = req(t, i, which);
                by_hand(s.call(q), i + k);
                let q = req(t, i, which);
                by_hand(other.call(q), i + k);
            }
        });
        // SyncService up to where it would run its handler
        if which < 3 && !kind.starts_with("handler") {
            let_go(r, kind, &format!("SyncService ({})", name), 8, |t, i| {
                let h = if which == 0 { Some(t.clone()) } else { None };
                let mut s = SyncService::with_context(
                    move |route: Route, orig: Arc<http::Request<()>>| {
                        let _ = &h;
                        reply(route, orig)
                    },
                    with(t, which),
                );
                let q = req(t, i, which);
                let _ = catch_unwind(AssertUnwindSafe(|| by_hand(s.call(q), i)));
            });
        }
    }
}

fn bursts(r: &mut Report) {
    for early in &[true, false] {
        let kind = if *early { "panics when called" } else { "panics when polled" };
        for which in &["payload", "panic handler", "service", "all"] {
            for reaction in &["response", "error", "keeps it", "panics", "hangs"] {
                let_go(r, kind, &format!("catch_unwind ({}, {})", which, reaction), 10, |t, i| {
                    let own = token().0;
                    let p = if *which == "panic handler" || *which == "all" { t.clone() } else { own.clone() };
                    let inner = Bursts(if *which != "panic handler" { t.clone() } else { own.clone() }, *early);
                    let mut s = inner.catch_unwind(move |payload| -> DefaultFuture<Response<Body>, BoxedError> {
                        let _ = &p;
                        match *reaction {
                            "response" => Box::new(future::ok(Response::new(Body::empty()))),
                            "error" => Box::new(future::err("caught".into())),
                            "keeps it" => {
                                // until the future is gone
                                let payload = std::sync::Mutex::new(payload);
                                Box::new(future::lazy(move || {
                                    drop(payload.into_inner());
                                    Ok(Response::new(Body::empty()))
                                }))
                            }
                            "panics" => panic!("again"),
                            _ => Box::new(future::empty()),
                        }
                    });
                    let mut other = s.clone();
                    for s in vec![&mut s, &mut other] {
                        let _ = catch_unwind(AssertUnwindSafe(|| by_hand(s.call(Request::new(Body::empty())), i)));
                    }
                });
            }
        }
    }
}

pub fn run(o: &mut Opts, r: &mut Report) {
    if o.seed % 8 == 0 {
        bursts(r);
    }
    // doubled each time, as are tables that grow
    let windows = &[o.n, o.n, 2 * o.n, 4 * o.n];
    let few = &[10, 10, 20, 40];
    let mut keep = vec![];
    // eight processes share the kinds
    for kind in KINDS.iter().skip(o.seed as usize % 8).step_by(8) {
        let handler = kind.starts_with("handler");
        releases(kind, r);
        let dir = |r: &mut Report, what: &str, w: &[usize], f: &mut dyn FnMut(usize, bool)| {
            judge(r, what, kind, w, f);
        };
        if !handler {
            dir(r, "from_request", windows, &mut |i, _| {
                keep.clear();
                let q = request(kind, i, &mut keep);
                let _ = catch_unwind(AssertUnwindSafe(|| by_hand(Route::from_request(q, ctx()), i)));
            });
            if !kind.ends_with("hang") && !kind.ends_with("hangs") {
                dir(r, "from_request_sync", few, &mut |i, _| {
                    let q = request(kind, i, &mut keep);
                    let _ = catch_unwind(AssertUnwindSafe(|| Route::from_request_sync(q, ctx()).is_ok()));
                });
            }
        }
        let mut a = AsyncService::with_context(answer, ctx());
        dir(r, "AsyncService", windows, &mut |i, _| {
            keep.clear();
            let q = request(kind, i, &mut keep);
            if i % 5 == 0 {
                a = a.clone();
            }
            let _ = catch_unwind(AssertUnwindSafe(|| by_hand(a.call(q), i)));
        });
        let mut c = AsyncService::with_context(answer, ctx()).catch_unwind(|_| Err::<Response<Body>, BoxedError>("caught".into()));
        dir(r, "AsyncService with catch_unwind", windows, &mut |i, _| {
            keep.clear();
            let q = request(kind, i, &mut keep);
            if i % 5 == 0 {
                c = c.clone();
            }
            by_hand(c.call(q), i);
        });
        if *kind != "handler hang" {
            // tokio-threadpool 0.1 keeps about 150 bytes for each blocking() call until the pool is gone
            let mut pool = None;
            let mut s = SyncService::with_context(reply, ctx());
            let mut k = SyncService::with_context(reply, ctx()).catch_unwind(|_| Err::<Response<Body>, BoxedError>("caught".into()));
            let mut go = |i: usize, last: bool, caught: bool, keep: &mut Vec<hyper::body::Sender>| {
                keep.clear();
                if pool.is_none() {
                    pool = Some(tokio_threadpool::Builder::new().pool_size(1).max_blocking(4).build());
                }
                let q = request(kind, i, keep);
                let f: DefaultFuture<Response<Body>, BoxedError> = if caught {
                    k.call(q)
                } else {
                    match catch_unwind(AssertUnwindSafe(|| s.call(q))) {
                        Ok(f) => f,
                        Err(_) => Box::new(future::err("panic".into())),
                    }
                };
                let f = futures::sync::oneshot::spawn(AssertUnwindSafe(Limited(f, 20)).catch_unwind(), &pool.as_ref().unwrap().sender().clone());
                let _ = f.wait();
                if last {
                    let _ = pool.take().unwrap().shutdown().wait();
                }
            };
            dir(r, "SyncService", windows, &mut |i, last| go(i, last, false, &mut keep));
            dir(r, "SyncService with catch_unwind", windows, &mut |i, last| go(i, last, true, &mut keep));
        }
    }
}
