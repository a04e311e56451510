//! Many at once: a crowd of decodes and calls that are all under way before the first of them gets
//! what it waits for, then fed and finished in any order, or given up.

use crate::report::*;
use futures::executor::{self, Notify, Spawn};
use futures::sync::oneshot;
use futures::{future, Async, Future, Stream};
use hyper::service::Service;
use hyper::{body::Sender, Body, Request, Response};
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::service::{AsyncService, ServiceExt};
use hyperdrive::{BoxedError, DefaultFuture, FromRequest, Guard, NoContext, RequestContext};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use vspec::rng::Rng;

struct Quiet;
impl Notify for Quiet {
    fn notify(&self, _: usize) {}
}

/// What a guard or handler waits for travels with the request.
struct Wait(Mutex<Vec<oneshot::Receiver<u32>>>);
fn wait(r: &Arc<Request<()>>) -> Option<oneshot::Receiver<u32>> {
    r.extensions().get::<Wait>().and_then(|w| w.0.lock().unwrap().pop())
}

#[derive(Debug)]
struct Gate(u32);
impl Guard for Gate {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        match wait(r) {
            Some(w) => Box::new(w.map(Gate).map_err(|_| "turned away".into())),
            None => Box::new(future::ok(Gate(0))),
        }
    }
}

#[derive(FromRequest, Debug)]
enum Route {
    #[post("/json/{n}")]
    Json {
        n: u32,
        #[body]
        b: Json<BTreeMap<String, u32>>,
    },
    #[post("/form/{n}")]
    Form {
        n: u32,
        #[body]
        b: HtmlForm<Vec<(String, u32)>>,
    },
    #[post("/both/{n}")]
    Both {
        n: u32,
        g: Gate,
        #[body]
        b: HtmlForm<BTreeMap<String, u32>>,
    },
    #[get("/gate/{n}")]
    Gate { n: u32, g: Gate },
    #[put("/in/{n}/{rest...}")]
    In {
        n: u32,
        rest: String,
        g: Gate,
        #[forward]
        i: Inner,
    },
}

#[derive(FromRequest, Debug)]
enum Inner {
    #[put("/in/{s}/json")]
    Json {
        s: String,
        #[body]
        b: Json<Vec<(String, u32)>>,
    },
    #[put("/in/{s}/form")]
    Form {
        s: String,
        #[body]
        b: HtmlForm<Vec<(String, String)>>,
    },
}

/// What is still to be done for one of the crowd.
struct Feed {
    chunks: Vec<Vec<u8>>,
    tx: Option<Sender>,
    gates: Vec<(oneshot::Sender<u32>, Option<u32>)>,
    breaks: bool,
}

/// `None`: an error whose text is not ours.
type Want = Option<String>;

fn make(rng: &mut Rng, i: usize, handler: bool) -> (Request<Body>, Feed, Want) {
    let n = i as u32;
    let m = rng.below(100) as u32;
    let (tx, body) = Body::channel();
    let mut gates = vec![];
    let mut rxs = vec![];
    let mut gate = || {
        let (t, r) = oneshot::channel();
        let v = if m % 10 == 0 { None } else { Some(m) };
        gates.push((t, v));
        rxs.push(r);
        v
    };
    let bad = rng.pct(10);
    let json = if bad { format!("{{\"a\":{}", m) } else { format!("{{\"a\":{},\"b\":{}}}", m, n) };
    let form = if bad { format!("a={}&b=x{}", m, n) } else { format!("a={}&b={}", m, n) };
    let (method, path, data, want) = match rng.below(6) {
        0 => ("POST", format!("/json/{}", n), json, Some(format!("Json {{ n: {}, b: Json({{\"a\": {}, \"b\": {}}}) }}", n, m, n))),
        1 => ("POST", format!("/form/{}", n), form, Some(format!("Form {{ n: {}, b: HtmlForm([(\"a\", {}), (\"b\", {})]) }}", n, m, n))),
        2 => {
            let g = gate();
            ("POST", format!("/both/{}", n), form, g.map(|g| format!("Both {{ n: {}, g: Gate({}), b: HtmlForm({{\"a\": {}, \"b\": {}}}) }}", n, g, m, n)))
        }
        3 => {
            let g = gate();
            ("GET", format!("/gate/{}", n), String::new(), g.map(|g| format!("Gate {{ n: {}, g: Gate({}) }}", n, g)))
        }
        4 => {
            let g = gate();
            let data = if bad { "[[\"k\"".to_string() } else { format!("[[\"k\",{}]]", m) };
            ("PUT", format!("/in/{}/json", n), data, g.map(|g| format!("In {{ n: {}, rest: \"json\", g: Gate({}), i: Json {{ s: \"{}\", b: Json([(\"k\", {})]) }} }}", n, g, n, m)))
        }
        _ => {
            let g = gate();
            ("PUT", format!("/in/{}/form", n), format!("k=v{}", m), g.map(|g| format!("In {{ n: {}, rest: \"form\", g: Gate({}), i: Form {{ s: \"{}\", b: HtmlForm([(\"k\", \"v{}\")]) }} }}", n, g, n, m)))
        }
    };
    let breaks = !data.is_empty() && rng.pct(8);
    let wrong = breaks || bad && !path.starts_with("/gate") && !path.ends_with("/form");
    let size = 1 + rng.below(data.len() + 1);
    let chunks: Vec<Vec<u8>> = data.as_bytes().chunks(size).rev().map(|c| c.to_vec()).collect();
    let mut want = if wrong { None } else { want };
    if handler {
        let g = gate();
        want = match g {
            // the error comes from the handler
            None => None,
            Some(g) => want.map(|w| format!("{} {}", w, g)),
        };
    }
    // the guard takes the first
    rxs.reverse();
    let mut req = Request::builder().method(method).uri(path).body(body).unwrap();
    req.extensions_mut().insert(Wait(Mutex::new(rxs)));
    gates.reverse();
    (req, Feed { chunks, tx: Some(tx), gates, breaks }, want)
}

/// One step for one of the crowd: a chunk, the end, or the gate. Says whether there was one left.
fn feed(f: &mut Feed, rng: &mut Rng) -> bool {
    if !f.gates.is_empty() && rng.pct(50) {
        if let (t, Some(v)) = f.gates.pop().unwrap() {
            let _ = t.send(v);
        }
        return true;
    }
    if let Some(tx) = f.tx.as_mut() {
        if f.breaks && f.chunks.len() <= 1 {
            f.tx.take().unwrap().abort();
        } else if let Some(c) = f.chunks.pop() {
            // full: the same one again later
            if tx.send_data(c.clone().into()).is_err() {
                f.chunks.push(c);
            }
        } else {
            f.tx = None;
        }
        return true;
    }
    !f.gates.is_empty()
}

fn crowd<F, T>(name: &str, blame: &'static [&'static str], rng: &mut Rng, size: usize, handler: bool, r: &mut Report, mut start: impl FnMut(Request<Body>) -> F, show: impl Fn(T) -> String)
where
    F: Future<Item = T, Error = BoxedError>,
{
    let mut all: Vec<Option<(usize, Spawn<F>, Feed, Want)>> = (0..size)
        .map(|i| {
            let (req, f, want) = make(rng, i, handler);
            Some((i, executor::spawn(start(req)), f, want))
        })
        .collect();
    let mut bad = 0;
    // every one of them has begun before anything arrives
    let mut fed = vec![0usize; size];
    let mut first = true;
    let mut left = all.len();
    let mut idle = 0;
    while left > 0 && idle < 200 {
        let mut moved = false;
        for k in 0..all.len() {
            let j = if first { k } else { rng.below(all.len()) };
            let done = match all[j].as_mut() {
                None => continue,
                Some((i, f, fd, want)) => {
                    if !first && feed(fd, rng) {
                        fed[*i] += 1;
                        moved = true;
                    }
                    if !first && rng.pct(40) {
                        continue;
                    }
                    if !first && rng.pct(1) {
                        r.count("given_up", 1);
                        Some(None)
                    } else {
                        match f.poll_future_notify(&Arc::new(Quiet), 0) {
                            Ok(Async::NotReady) => None,
                            Ok(Async::Ready(x)) => Some(Some((Some(show(x)), want.clone()))),
                            Err(_) => Some(Some((None, want.clone()))),
                        }
                    }
                }
            };
            if let Some(result) = done {
                let (i, ..) = all[j].take().unwrap();
                left -= 1;
                if let Some((got, want)) = result {
                    r.runs += 1;
                    r.events += fed[i] + 1;
                    r.class(&format!("{} of {} {}", name, size, want.as_ref().map_or("error", |w| w.split(' ').next().unwrap())));
                    if got != want && bad < 3 {
                        bad += 1;
                        r.bad(blame, format!("{}, {} at once: number {} gave {:?} instead of {:?}, when {} were under way", name, size, i, got, want, left + 1));
                    }
                }
            }
        }
        if first {
            r.count("under_way_at_once", left);
            first = false;
        }
        idle = if moved { 0 } else { idle + 1 };
    }
    if left > 0 {
        let (i, _, fd, want) = all.iter().filter_map(|x| x.as_ref()).next().unwrap();
        r.bad(blame, format!("{}, {} at once: {} never completed, such as number {} with {} chunks and {} gates left, expected {:?}", name, size, left, i, fd.chunks.len(), fd.gates.len(), want));
    }
}

fn reply(route: Route, orig: Arc<Request<()>>) -> DefaultFuture<Response<Body>, BoxedError> {
    match wait(&orig) {
        Some(w) => Box::new(w.map_err(|_| "handler gives up".into()).map(move |n| Response::new(Body::from(format!("{:?} {}", route, n))))),
        None => Box::new(future::err("nothing to wait for".into())),
    }
}

fn text(r: Response<Body>) -> String {
    let c = r.into_body().concat2().wait().unwrap();
    String::from_utf8_lossy(&c).to_string()
}

/// Where threads meet.
#[derive(Clone, RequestContext)]
struct Meeting {
    expected: usize,
    there: Arc<Mutex<Vec<oneshot::Sender<()>>>>,
}
struct Meets;
impl Guard for Meets {
    type Context = Meeting;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(_: &Arc<Request<()>>, m: &Meeting) -> Self::Result {
        let m = m.clone();
        Box::new(future::lazy(move || {
            let (tx, rx) = oneshot::channel();
            let mut t = m.there.lock().unwrap();
            t.push(tx);
            if t.len() == m.expected {
                for tx in t.drain(..) {
                    let _ = tx.send(());
                }
            }
            rx.map(|_| Meets).map_err(|_| "nobody left".into())
        }))
    }
}
/// Waits for what is in the request.
struct After;
impl Guard for After {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        match wait(r) {
            Some(w) => Box::new(w.map(|_| After).map_err(|_| "turned away".into())),
            None => Box::new(future::ok(After)),
        }
    }
}
#[derive(FromRequest)]
#[context(Meeting)]
#[allow(dead_code)]
enum Met {
    #[get("/meet/{n}")]
    Meet { n: usize, m: Meets },
    #[get("/after/{n}")]
    After { n: usize, m: After },
    #[post("/body/{n}")]
    Body {
        n: usize,
        m: Meets,
        #[body]
        b: Json<Vec<usize>>,
    },
}
impl Met {
    fn n(&self) -> usize {
        match self {
            Met::Meet { n, .. } | Met::After { n, .. } | Met::Body { n, .. } => *n,
        }
    }
}

/// So many runtimes can be had at the same time.
fn most() -> usize {
    let limits = std::fs::read_to_string("/proc/self/limits").unwrap_or_default();
    let soft = limits.lines().find(|l| l.starts_with("Max open files")).and_then(|l| l[14..].split_whitespace().next().and_then(|s| s.parse::<usize>().ok())).unwrap_or(700);
    (soft.saturating_sub(60) / 6).min(400)
}

/// Calls of `from_request_sync` that can only return if all of them are under way.
pub fn threads(seed: u64, rounds: usize, r: &mut Report) {
    let mut rng = Rng::derive(seed, "meeting", 0);
    for round in 0..rounds {
        let most = if seed % 8 == 0 { most() } else { most().min(100) };
        let size = *rng.pick(&[2usize, 3, 9, 33, 65, 100, most]).min(&most);
        let size = if round == 0 { most } else { size };
        let kind = *rng.pick(&["meet", "body", "chain", "mixed"]);
        let meeting = Meeting {
            expected: size,
            there: Default::default(),
        };
        let (tx, rx) = channel();
        let mut before: Option<oneshot::Receiver<u32>> = None;
        for i in 0..size {
            let tx = tx.clone();
            let meeting = meeting.clone();
            // each waits until the one before it has returned
            let (done, wait) = oneshot::channel();
            let chained = kind == "chain";
            let mut q = match kind {
                "chain" => Request::get(format!("/after/{}", i)).body(Body::empty()).unwrap(),
                "mixed" if i % 2 == 0 => Request::post(format!("/body/{}", i)).body(Body::from(format!("[{}]", i))).unwrap(),
                "body" => Request::post(format!("/body/{}", i)).body(Body::from(format!("[{}]", i))).unwrap(),
                _ => Request::get(format!("/meet/{}", i)).body(Body::empty()).unwrap(),
            };
            if let Some(b) = before.take() {
                if chained {
                    q.extensions_mut().insert(Wait(Mutex::new(vec![b])));
                }
            }
            before = Some(wait);
            // the first one to go is the last to come
            let hold = Duration::from_millis(if chained && i == 0 { 30 } else { 0 });
            let spawned = thread::Builder::new().stack_size(256 * 1024).spawn(move || {
                thread::sleep(hold);
                let x = catch_unwind(AssertUnwindSafe(|| Met::from_request_sync(q, meeting)));
                let _ = done.send(0);
                let _ = tx.send((
                    i,
                    match x {
                        Ok(Ok(m)) => Ok(m.n()),
                        Ok(Err(e)) => Err(e.to_string()),
                        Err(_) => Err("panic".into()),
                    },
                ));
            });
            spawned.expect("thread");
        }
        drop(tx);
        let mut bad = 0;
        for k in 0..size {
            match rx.recv_timeout(Duration::from_secs(45)) {
                Ok((i, got)) => {
                    r.runs += 1;
                    r.events += 1;
                    if got != Ok(i) && bad < 3 {
                        bad += 1;
                        r.bad(&["C18"], format!("{} calls of from_request_sync at once ({}): number {} gave {:?}", size, kind, i, got));
                    }
                }
                Err(_) => {
                    r.bad(&["C18"], format!("{} calls of from_request_sync at once ({}), each waiting for others: only {} returned", size, kind, k));
                    return;
                }
            }
        }
        r.count("sync_calls_at_once", size);
        r.class(&format!("sync {} {}", kind, size));
    }
}

pub fn run(o: &mut Opts, r: &mut Report) {
    let mut rng = Rng::derive(o.seed, "crowd", 0);
    for round in 0..o.n {
        let size = if round == 0 { 3000 } else { *rng.pick(&[2usize, 10, 40, 70, 140, 300, 600, 1100]) };
        crowd("decode", &["C22"], &mut rng, size, false, r, |q| Route::from_request(q, NoContext), |x: Route| format!("{:?}", x));
        let mut s = AsyncService::new(reply);
        crowd("AsyncService", &["C14"], &mut rng, size, true, r, |q| s.call(q), text);
        let mut s = AsyncService::new(reply).catch_unwind(|_| Err::<Response<Body>, BoxedError>("caught".into()));
        crowd("AsyncService with catch_unwind", &["C15"], &mut rng, size, true, r, |q| s.call(q), text);
    }
}
