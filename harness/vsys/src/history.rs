//! Long histories in one process: thousands of calls that are abandoned, fail, panic or stay in
//! flight, with ordinary calls in between which have to be answered as if nothing had happened.

use crate::report::*;
use futures::executor::{self, Notify};
use futures::{future, Async, Future, Stream};
use hyper::service::Service;
use hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{body::Json, BoxedError, DefaultFuture, FromRequest, Guard, NoContext};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use vspec::rng::Rng;

struct Quiet;
impl Notify for Quiet {
    fn notify(&self, _: usize) {}
}

/// Never completes when the request asks for it.
#[derive(Debug)]
struct Slow(bool);
impl Guard for Slow {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(r: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result {
        match r.headers().get("x-slow").map(|v| v.as_bytes()) {
            Some(b"hang") => Box::new(future::empty()),
            Some(b"fail") => Box::new(future::err("guard says no".into())),
            Some(b"panic") => panic!("guard panics"),
            Some(b"later") => Box::new(future::lazy(|| -> Result<Slow, BoxedError> { panic!("guard panics") })),
            _ => Box::new(future::ok(Slow(true))),
        }
    }
}

/// Its conversion panics on demand.
#[derive(Debug)]
struct Frail(String);
impl std::str::FromStr for Frail {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        match s {
            "panic" => panic!("conversion panics"),
            "fail" => "x".parse::<u8>().map(|_| Frail(String::new())),
            _ => Ok(Frail(s.to_string())),
        }
    }
}

#[derive(FromRequest, Debug)]
enum Route {
    #[get("/")]
    Index,
    #[get("/p/{p}/{id}")]
    #[delete("/p/{p}/{id}")]
    Frail { p: Frail, id: u8 },
    #[get("/u/{id}")]
    User { id: u32, g: Slow },
    #[post("/u/{id}")]
    Post {
        id: u32,
        g: Slow,
        #[body]
        j: Json<Vec<u32>>,
    },
    #[put("/f/{rest...}")]
    #[get("/f/{rest...}")]
    File {
        rest: String,
        #[query_params]
        q: Vec<(String, String)>,
        #[forward]
        kind: Kind,
    },
}

#[derive(FromRequest, Debug)]
enum Kind {
    #[get("/f/{name}")]
    Get { name: String },
    #[put("/f/{a}/{b}")]
    Put { a: String, b: u8 },
    #[get("/f/{a}/{b}")]
    Sub { a: String, b: u8 },
}

/// A request and how it ends.
fn normal(rng: &mut Rng) -> (Request<Body>, String) {
    let n = rng.below(1000);
    let m = rng.below(256);
    let get = |p: String| Request::get(p).body(Body::empty()).unwrap();
    match rng.below(16) {
        12 => (get(format!("/p/{}/{}", n, m)), format!("Frail {{ p: Frail(\"{}\"), id: {} }}", n, m)),
        13 => (
            Request::delete(format!("/p/{}/{}", n, m)).body(Body::empty()).unwrap(),
            format!("Frail {{ p: Frail(\"{}\"), id: {} }}", n, m),
        ),
        14 => (get(format!("/p/{}/x{}", n, m)), "404".into()),
        15 => (Request::put(format!("/p/{}/{}", n, m)).body(Body::empty()).unwrap(), "405 DELETE, GET, HEAD".into()),
        0 => (get("/".into()), "Index".into()),
        1 => (get(format!("/u/{}", n)), format!("User {{ id: {}, g: Slow(true) }}", n)),
        2 => (
            Request::post(format!("/u/{}", n)).body(Body::from(format!("[{},{}]", n, m))).unwrap(),
            format!("Post {{ id: {}, g: Slow(true), j: Json([{}, {}]) }}", n, n, m),
        ),
        3 => (get(format!("/f/n{}?k={}", n, m)), format!("File {{ rest: \"n{}\", q: [(\"k\", \"{}\")], kind: Get {{ name: \"n{}\" }} }}", n, m, n)),
        4 => (
            Request::put(format!("/f/{}/{}", n, m)).body(Body::empty()).unwrap(),
            format!("File {{ rest: \"{}/{}\", q: [], kind: Put {{ a: \"{}\", b: {} }} }}", n, m, n, m),
        ),
        5 => (get(format!("/f/{}/{}", n, m)), format!("File {{ rest: \"{}/{}\", q: [], kind: Sub {{ a: \"{}\", b: {} }} }}", n, m, n, m)),
        6 => (get(format!("/nope/{}", n)), "404".into()),
        7 => (get(format!("/u/x{}", n)), "404".into()),
        8 => (Request::delete(format!("/u/{}", n)).body(Body::empty()).unwrap(), "405 GET, HEAD, POST".into()),
        9 => (Request::post(format!("/f/{}", n)).body(Body::empty()).unwrap(), "405 GET, HEAD, PUT".into()),
        10 => (Request::put(format!("/f/{}", n)).body(Body::empty()).unwrap(), "405 GET, HEAD".into()),
        _ => (Request::head("/").body(Body::empty()).unwrap(), "Index".into()),
    }
}

/// A request that fails, panics or never ends.
fn odd(rng: &mut Rng, keep: &mut Vec<hyper::body::Sender>) -> Request<Body> {
    let n = rng.below(1000);
    let mut b = Request::builder();
    match rng.below(10) {
        8 => b.uri(format!("/p/panic/{}", n % 300)).body(Body::empty()).unwrap(),
        9 => b.method(*rng.pick(&["PUT", "DELETE", "HEAD"])).uri(format!("/p/{}/{}", rng.pick(&["panic", "fail"]), n % 300)).body(Body::empty()).unwrap(),
        0 => b.uri(format!("/u/{}", n)).header("x-slow", "hang").body(Body::empty()).unwrap(),
        1 => b.uri(format!("/u/{}", n)).header("x-slow", "fail").body(Body::empty()).unwrap(),
        2 => b.uri(format!("/u/{}", n)).header("x-slow", *rng.pick(&["panic", "later"])).body(Body::empty()).unwrap(),
        3 | 4 => {
            // a body that does not come
            let (mut tx, body) = Body::channel();
            if rng.pct(50) {
                let _ = tx.send_data("[1".into());
            }
            keep.push(tx);
            b.method("POST").uri(format!("/u/{}", n)).body(body).unwrap()
        }
        5 => b.method("POST").uri(format!("/u/{}", n)).body(Body::from("[1,")).unwrap(),
        6 => {
            let (tx, body) = Body::channel();
            tx.abort();
            b.method("POST").uri(format!("/u/{}", n)).body(body).unwrap()
        }
        // the handler hangs, fails or panics
        _ => b.uri("/").header("x-handler", *rng.pick(&["hang", "fail", "panic"])).body(Body::empty()).unwrap(),
    }
}

fn error_text(e: &hyperdrive::Error) -> String {
    match e.allowed_methods() {
        Some(m) => {
            let mut v: Vec<_> = m.iter().map(|m| m.as_str()).collect();
            v.sort();
            format!("405 {}", v.join(", "))
        }
        None => e.http_status().as_u16().to_string(),
    }
}

fn show(r: Result<Route, BoxedError>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => match e.downcast_ref::<hyperdrive::Error>() {
            Some(h) => error_text(h),
            None => e.to_string(),
        },
    }
}

fn poll_once<F: Future>(f: &mut executor::Spawn<F>) -> Result<Async<F::Item>, F::Error> {
    f.poll_future_notify(&Arc::new(Quiet), 0)
}

/// Decoding itself.
fn decodes(o: &Opts, r: &mut Report) {
    let mut rng = Rng::derive(o.seed, "history decode", 0);
    let mut keep = vec![];
    let mut flying = vec![];
    let mut bad = 0;
    for i in 0..o.n * 20 {
        if rng.pct(60) {
            let req = odd(&mut rng, &mut keep);
            if let Ok(mut f) = catch_unwind(AssertUnwindSafe(|| executor::spawn(Route::from_request(req, NoContext)))) {
                let done = match rng.below(4) {
                    // dropped before it ran
                    0 => true,
                    _ => match catch_unwind(AssertUnwindSafe(|| poll_once(&mut f))) {
                        Ok(Ok(Async::NotReady)) => false,
                        _ => true,
                    },
                };
                if !done && rng.pct(50) {
                    flying.push(f);
                    r.count("kept_in_flight", 1);
                }
            }
            r.count("odd_decodes", 1);
            continue;
        }
        let (req, want) = normal(&mut rng);
        let mut f = executor::spawn(Route::from_request(req, NoContext));
        let got = match poll_once(&mut f) {
            Ok(Async::Ready(v)) => show(Ok(v)),
            Ok(Async::NotReady) => "pending".into(),
            Err(e) => show(Err(e)),
        };
        r.runs += 1;
        r.events += 1;
        r.class(&format!("decode {}", want.split(' ').next().unwrap()));
        if got != want && bad < 3 {
            bad += 1;
            r.bad(&["C22"], format!("after {} decodes, of which {} are still in flight: expected {} got {}", i, flying.len(), want, got));
        }
    }
}

type Answer = Result<(u16, String, String), String>;

fn read(resp: Response<Body>) -> (u16, String, String) {
    let (p, b) = resp.into_parts();
    let mut allow: Vec<String> = p
        .headers
        .get("allow")
        .map(|v| v.to_str().unwrap().split(',').map(|s| s.trim().to_string()).collect())
        .unwrap_or_default();
    allow.sort();
    let b = b.concat2().wait().map(|c| String::from_utf8_lossy(&c).to_string()).unwrap_or_else(|e| e.to_string());
    (p.status.as_u16(), allow.join(", "), b)
}

fn wanted(head: bool, want: &str) -> Answer {
    Ok(if want.starts_with("404") {
        (404, String::new(), String::new())
    } else if want.starts_with("405") {
        (405, want[4..].to_string(), String::new())
    } else {
        (200, String::new(), if head { String::new() } else { want.to_string() })
    })
}

fn services<S>(name: &str, svc: S, o: &Opts, r: &mut Report, rt: Option<&mut tokio::runtime::Runtime>)
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone,
    S::Future: Send + 'static,
{
    let mut rng = Rng::derive(o.seed, name, 1);
    let mut svc = svc;
    let mut keep = vec![];
    let mut flying = vec![];
    let mut bad = 0;
    let mut rt = rt;
    for i in 0..o.n * 4 {
        if rng.pct(2) {
            svc = svc.clone();
        }
        if rng.pct(70) {
            let mut req = odd(&mut rng, &mut keep);
            if rt.is_some() && req.headers().contains_key("x-handler") {
                // the synchronous handler needs a thread
                *req.uri_mut() = "/nowhere".parse().unwrap();
            }
            if let Ok(mut f) = catch_unwind(AssertUnwindSafe(|| executor::spawn(svc.call(req)))) {
                let done = match rng.below(5) {
                    0 => true,
                    _ => match catch_unwind(AssertUnwindSafe(|| poll_once(&mut f))) {
                        Ok(Ok(Async::NotReady)) => false,
                        _ => true,
                    },
                };
                if !done && flying.len() < 3000 && rng.pct(50) {
                    flying.push(f);
                    r.count("kept_in_flight", 1);
                }
            }
            r.count("odd_calls", 1);
            continue;
        }
        if let Ok(Async::Ready(())) = svc.poll_ready() {
        } else {
            r.bad(&["C14"], format!("{}: not ready after {} calls", name, i));
            return;
        }
        let (req, want) = normal(&mut rng);
        let want = wanted(req.method() == "HEAD", &want);
        let f = svc.call(req);
        let got: Answer = match rt.as_mut() {
            None => match poll_once(&mut executor::spawn(f)) {
                Ok(Async::Ready(x)) => Ok(read(x)),
                Ok(Async::NotReady) => Err("pending".into()),
                Err(e) => Err(e.to_string()),
            },
            Some(rt) => {
                let (tx, rx) = std::sync::mpsc::channel();
                rt.spawn(f.then(move |x| {
                    let _ = tx.send(x.map(read).map_err(|e| e.to_string()));
                    Ok(())
                }));
                rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or_else(|_| Err("no answer within 30 s".into()))
            }
        };
        r.runs += 1;
        r.events += 1;
        r.class(&format!("{} {:?}", name, want.as_ref().map(|w| (w.0, w.2.split(' ').next().unwrap_or("").to_string()))));
        if got != want && bad < 3 {
            bad += 1;
            let blame: &[&str] = match &want {
                Ok((404, _, _)) | Ok((405, _, _)) => &["C14", "C12"],
                _ => &["C14"],
            };
            r.bad(blame, format!("{}: after {} calls, of which {} are still in flight: expected {:?} got {:?}", name, i, flying.len(), want, got));
            if got.as_ref().err().map_or(false, |e| e.starts_with("no answer")) {
                return;
            }
        }
    }
}

fn reply(r: Route) -> Response<Body> {
    Response::new(Body::from(format!("{:?}", r)))
}

pub fn run(o: &mut Opts, r: &mut Report) {
    decodes(o, r);
    let handler = |route: Route, orig: Arc<http::Request<()>>| -> DefaultFuture<Response<Body>, BoxedError> {
        match orig.headers().get("x-handler").map(|v| v.as_bytes()) {
            Some(b"hang") => Box::new(future::empty()),
            Some(b"fail") => Box::new(future::err("handler says no".into())),
            Some(b"panic") => panic!("handler panics"),
            _ => Box::new(future::ok(reply(route))),
        }
    };
    services("async", AsyncService::new(handler), o, r, None);
    services("async+catch", AsyncService::new(handler).catch_unwind(|_| Err::<Response<Body>, BoxedError>("caught".into())), o, r, None);
    let mut rt = tokio::runtime::Builder::new().core_threads(2).build().unwrap();
    services("sync", SyncService::new(|route: Route, _| reply(route)), o, r, Some(&mut rt));
    services(
        "sync+catch",
        SyncService::new(|route: Route, _| reply(route)).catch_unwind(|_| Err::<Response<Body>, BoxedError>("caught".into())),
        o,
        r,
        Some(&mut rt),
    );
    let _ = rt.shutdown_now().wait();
}
