//! `from_request_sync` with guards and bodies that need what a tokio runtime offers: timers, the
//! reactor, spawned tasks, wake-ups from other threads, background tasks that never end.

use crate::report::*;
use futures::future::{self, Either};
use futures::sync::oneshot;
use futures::{Async, Future, Stream};
use hyper::Body;
use hyperdrive::{body::Json, BoxedError, DefaultFuture, FromRequest, Guard, NoContext, RequestContext};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use tokio::timer::{Delay, Interval};
use vspec::rng::Rng;

#[derive(Clone, Debug, RequestContext)]
pub struct Log {
    pub lines: Arc<Mutex<Vec<String>>>,
    pub addr: std::net::SocketAddr,
}
impl Log {
    pub fn add(&self, s: String) {
        self.lines.lock().unwrap().push(s)
    }
}

pub const KINDS: &[&str] = &[
    "ready", "delay", "spawned", "current_thread", "default_executor", "thread", "background", "ticking", "tcp", "yield", "fail", "panic", "late_fail",
];

fn ms(n: u64) -> Instant {
    Instant::now() + Duration::from_micros(n * 300)
}

/// Becomes ready after asking to be polled again `n` times.
fn yields(n: u64) -> impl Future<Item = (), Error = BoxedError> + Send {
    let mut left = n;
    future::poll_fn(move || {
        if left == 0 {
            return Ok(Async::Ready(()));
        }
        left -= 1;
        futures::task::current().notify();
        Ok(Async::NotReady)
    })
}

pub fn delay(n: u64) -> impl Future<Item = (), Error = BoxedError> + Send {
    Delay::new(ms(n)).map_err(|e| -> BoxedError { e.to_string().into() })
}

/// What a guard does, as its header says: `kind:amount`.
fn step(i: usize, r: &Arc<http::Request<()>>, log: &Log) -> DefaultFuture<u64, BoxedError> {
    let text = r.headers().get(&format!("x-g{}", i)[..]).map(|v| v.to_str().unwrap().to_string()).unwrap_or_else(|| "ready:0".into());
    let mut p = text.split(':');
    let kind = p.next().unwrap().to_string();
    let n: u64 = p.next().unwrap().parse().unwrap();
    let log2 = log.clone();
    let addr = log.addr;
    let rx = |n: u64| {
        let (tx, rx) = oneshot::channel::<()>();
        (
            rx.map_err(|_| -> BoxedError { "task was dropped".into() }),
            Delay::new(ms(n)).map_err(|_| ()).and_then(move |_| tx.send(())),
        )
    };
    log.add(format!("start {}", i));
    // inside the executor, not while the future is built
    let f: DefaultFuture<(), BoxedError> = match &kind[..] {
        "ready" => Box::new(future::ok(())),
        "delay" => Box::new(future::lazy(move || delay(n))),
        "spawned" => Box::new(future::lazy(move || {
            let (rx, f) = rx(n);
            tokio::spawn(f);
            rx
        })),
        "current_thread" => Box::new(future::lazy(move || {
            let (rx, f) = rx(n);
            tokio::runtime::current_thread::spawn(f);
            rx
        })),
        "default_executor" => Box::new(future::lazy(move || {
            let (rx, f) = rx(n);
            let ok = tokio::executor::Executor::spawn(&mut tokio::executor::DefaultExecutor::current(), Box::new(f));
            match ok {
                Ok(()) => Either::A(rx),
                Err(e) => Either::B(future::err(e.to_string().into())),
            }
        })),
        "thread" => Box::new(future::lazy(move || {
            let (tx, rx) = oneshot::channel::<()>();
            thread::spawn(move || {
                thread::sleep(Duration::from_micros(n * 300));
                let _ = tx.send(());
            });
            rx.map_err(|_| -> BoxedError { "thread is gone".into() })
        })),
        "background" => Box::new(future::lazy(move || {
            tokio::spawn(future::empty::<(), ()>());
            delay(n)
        })),
        "ticking" => Box::new(future::lazy(move || {
            tokio::spawn(Interval::new(ms(1), Duration::from_micros(700)).map_err(|_| ()).for_each(|_| Ok(())));
            delay(n)
        })),
        "tcp" => Box::new(future::lazy(move || {
            tokio_tcp::TcpStream::connect(&addr)
                .and_then(|s| tokio::io::write_all(s, b"ping"))
                .and_then(|(s, _)| tokio::io::read_exact(s, [0; 4]))
                .map(|_| ())
                .map_err(Into::into)
        })),
        "yield" => Box::new(yields(n)),
        "fail" => Box::new(future::err(format!("planned {}", i).into())),
        "late_fail" => Box::new(future::lazy(move || delay(n)).and_then(move |_| Err(format!("planned {}", i).into()))),
        "panic" => panic!("planned panic {}", i),
        k => panic!("kind {}", k),
    };
    Box::new(f.map(move |()| {
        log2.add(format!("end {}", i));
        n
    }))
}

macro_rules! guard {
    ($($name:ident $i:expr;)*) => {
        $(
            #[derive(Debug, PartialEq)]
            pub struct $name(u64);
            impl Guard for $name {
                type Context = Log;
                type Result = DefaultFuture<Self, BoxedError>;
                fn from_request(r: &Arc<http::Request<()>>, c: &Log) -> Self::Result {
                    Box::new(step($i, r, c).map($name))
                }
            }
        )*
    };
}
guard! { A 0; B 1; C 2; }

#[derive(FromRequest, Debug, PartialEq)]
#[context(Log)]
pub enum Route {
    #[get("/none/{n}")]
    None { n: u32, a: A, b: B, c: C },
    #[post("/json/{n}")]
    Json {
        n: u32,
        a: A,
        b: B,
        #[body]
        j: Json<BTreeMap<String, u32>>,
    },
    #[get("/in/{rest...}")]
    #[put("/in/{rest...}")]
    Nested {
        rest: String,
        a: A,
        #[forward]
        inner: Inner,
    },
}

#[derive(FromRequest, Debug, PartialEq)]
#[context(Log)]
pub enum Inner {
    #[get("/in/x")]
    X { b: B, c: C },
    #[put("/in/y")]
    Y {
        c: C,
        #[body]
        j: Json<Vec<u8>>,
    },
}

/// Written by hand: the future is whatever converts into one.
#[derive(Debug)]
struct ByHand(String);
impl FromRequest for ByHand {
    type Future = future::FutureResult<Self, BoxedError>;
    type Context = NoContext;
    fn from_request_and_body(r: &Arc<http::Request<()>>, _: Body, _: NoContext) -> Self::Future {
        if r.uri().path() == "/bad" {
            future::err("bad".into())
        } else {
            future::ok(ByHand(r.uri().path().to_string()))
        }
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub method: &'static str,
    pub path: String,
    pub guards: Vec<(&'static str, u64)>,
    pub body: Vec<u8>,
    /// 0: whole, 1: chunks from a thread, 2: chunks by timer, 3: a thread gives up after some
    pub feed: usize,
    pub feeds: u64,
}

pub fn make(rng: &mut Rng) -> Case {
    let mut kind = |rng: &mut Rng| -> (&'static str, u64) {
        let k = if rng.pct(85) { *rng.pick(&KINDS[..10]) } else { *rng.pick(KINDS) };
        (k, rng.below(12) as u64)
    };
    let guards = vec![kind(rng), kind(rng), kind(rng)];
    let n = rng.below(100);
    let (method, path, body): (&'static str, String, Vec<u8>) = match rng.below(7) {
        0 => ("GET", format!("/none/{}", n), vec![]),
        1 | 2 => ("POST", format!("/json/{}", n), format!("{{\"a\":{},\"bb\":{}}}", n, rng.below(9)).into_bytes()),
        3 => ("GET", "/in/x".into(), vec![]),
        4 => ("PUT", "/in/y".into(), format!("[{},{}]", n, n).into_bytes()),
        5 => ("POST", format!("/json/{}", n), b"{\"a\":".to_vec()),
        _ => ("GET", rng.pick(&["/none/x", "/nope", "/json/1", "/in/z"]).to_string(), vec![]),
    };
    Case {
        method,
        path,
        guards,
        body,
        feed: rng.below(4),
        feeds: rng.below(6) as u64,
    }
}

fn body_of(c: &Case) -> Body {
    let chunks: Vec<Vec<u8>> = c.body.chunks(3).map(|x| x.to_vec()).collect();
    let pause = Duration::from_micros(c.feeds * 200);
    match c.feed {
        0 => Body::from(c.body.clone()),
        2 => {
            let d = c.feeds;
            Body::wrap_stream(futures::stream::iter_ok::<_, BoxedError>(chunks).and_then(move |x| delay(d).map(move |_| x)))
        }
        f => {
            let (mut tx, b) = Body::channel();
            thread::spawn(move || {
                let n = chunks.len();
                for (i, x) in chunks.into_iter().enumerate() {
                    if f == 3 && i >= 2 && i + 1 < n {
                        tx.abort();
                        return;
                    }
                    thread::sleep(pause);
                    let mut x = hyper::Chunk::from(x);
                    loop {
                        match tx.send_data(x) {
                            Ok(()) => break,
                            Err(back) => x = back,
                        }
                        // full: wait; closed: give up
                        match future::poll_fn(|| tx.poll_ready()).wait() {
                            Ok(()) => {}
                            Err(_) => return,
                        }
                    }
                }
            });
            b
        }
    }
}

pub fn request(c: &Case) -> http::Request<Body> {
    let mut b = http::Request::builder();
    b.method(c.method).uri(&c.path[..]);
    for (i, (k, n)) in c.guards.iter().enumerate() {
        b.header(&format!("x-g{}", i)[..], format!("{}:{}", k, n));
    }
    b.body(body_of(c)).unwrap()
}

pub type Out = (String, Vec<String>);

pub fn text(r: Result<Result<Route, BoxedError>, Box<dyn std::any::Any + Send>>) -> String {
    match r {
        Ok(Ok(v)) => format!("ok {:?}", v),
        Ok(Err(e)) => match e.downcast_ref::<hyperdrive::Error>() {
            Some(h) => format!("error {} {:?}", h.http_status(), h.allowed_methods()),
            None => format!("error {}", e),
        },
        Err(p) => format!("panic {}", p.downcast_ref::<String>().cloned().unwrap_or_else(|| p.downcast_ref::<&str>().unwrap_or(&"?").to_string())),
    }
}

/// What has to come out, from the description alone; `None` where the text is the library's or serde's.
pub fn expected(c: &Case) -> (Option<String>, Vec<String>) {
    let mut ev = vec![];
    let run = |ev: &mut Vec<String>, list: &[usize]| -> Result<(), String> {
        for &i in list {
            ev.push(format!("start {}", i));
            match c.guards[i].0 {
                "fail" | "late_fail" => return Err(format!("error planned {}", i)),
                "panic" => {
                    // nothing ran yet
                    return Err(format!("panic planned panic {}", i));
                }
                _ => ev.push(format!("end {}", i)),
            }
        }
        Ok(())
    };
    let g = |i: usize| c.guards[i].1;
    let aborted = c.feed == 3 && (c.body.len() + 2) / 3 > 3;
    let last = |s: &str| c.path.rsplit('/').next().unwrap_or(s).to_string();
    let r: Result<Option<String>, String> = match (c.method, &c.path[..]) {
        ("GET", "/in/x") => run(&mut ev, &[0]).and_then(|_| run(&mut ev, &[1, 2])).map(|_| Some(format!("ok Nested {{ rest: \"x\", a: A({}), inner: X {{ b: B({}), c: C({}) }} }}", g(0), g(1), g(2)))),
        ("PUT", "/in/y") => run(&mut ev, &[0]).and_then(|_| run(&mut ev, &[2])).map(|_| {
            if aborted {
                return None;
            }
            let n: Vec<u8> = serde_json::from_slice(&c.body).unwrap();
            Some(format!("ok Nested {{ rest: \"y\", a: A({}), inner: Y {{ c: C({}), j: Json({:?}) }} }}", g(0), g(2), n))
        }),
        ("POST", _) => run(&mut ev, &[0, 1]).map(|_| {
            if aborted {
                return None;
            }
            let m: Option<BTreeMap<String, u32>> = serde_json::from_slice(&c.body).ok();
            m.map(|m| format!("ok Json {{ n: {}, a: A({}), b: B({}), j: Json({:?}) }}", last(""), g(0), g(1), m))
        }),
        ("GET", "/none/x") | ("GET", "/nope") => Err("error 404 Not Found None".to_string()),
        ("GET", "/json/1") => Err("error 405 Method Not Allowed Some([POST])".to_string()),
        ("GET", "/in/z") => run(&mut ev, &[0]).and_then(|_| Err("error 404 Not Found None".to_string())),
        _ => run(&mut ev, &[0, 1, 2]).map(|_| Some(format!("ok None {{ n: {}, a: A({}), b: B({}), c: C({}) }}", last(""), g(0), g(1), g(2)))),
    };
    (r.unwrap_or_else(Some), ev)
}

pub fn sync(c: &Case, addr: std::net::SocketAddr) -> Out {
    let log = Log {
        lines: Arc::new(Mutex::new(vec![])),
        addr,
    };
    let l = log.clone();
    let r = request(c);
    let x = text(catch_unwind(AssertUnwindSafe(|| Route::from_request_sync(r, l))));
    let ev = log.lines.lock().unwrap().clone();
    (x, ev)
}

/// The same with a runtime of our own.
fn reference(c: &Case, addr: std::net::SocketAddr) -> Out {
    let log = Log {
        lines: Arc::new(Mutex::new(vec![])),
        addr,
    };
    let l = log.clone();
    let r = request(c);
    let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
    let x = text(catch_unwind(AssertUnwindSafe(|| rt.block_on(Route::from_request(r, l)))));
    let ev = log.lines.lock().unwrap().clone();
    (x, ev)
}

pub fn echo_server() -> std::net::SocketAddr {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    thread::spawn(move || {
        for s in l.incoming() {
            if let Ok(mut s) = s {
                thread::spawn(move || {
                    let mut b = [0; 4];
                    if s.read_exact(&mut b).is_ok() {
                        let _ = s.write_all(&b);
                    }
                });
            }
        }
    });
    a
}

pub fn run(o: &mut Opts, r: &mut Report) {
    let addr = echo_server();
    let mut rng = Rng::derive(o.seed, "sync", 0);
    // rounds of many threads at once, each decoding several requests one after the other
    for round in 0..o.n {
        let threads = *rng.pick(&[1usize, 1, 4, 12]);
        let per = *rng.pick(&[1usize, 5, 20]);
        let (tx, rx) = channel();
        let mut open: BTreeMap<(usize, usize), Case> = BTreeMap::new();
        for t in 0..threads {
            let cases: Vec<Case> = (0..per).map(|_| make(&mut rng)).collect();
            for (i, c) in cases.iter().enumerate() {
                open.insert((t, i), c.clone());
            }
            let tx = tx.clone();
            thread::spawn(move || {
                for (i, c) in cases.iter().enumerate() {
                    let got = sync(c, addr);
                    let want = reference(c, addr);
                    let hand = match ByHand::from_request_sync(http::Request::get(&c.path[..]).body(Body::empty()).unwrap(), NoContext) {
                        Ok(b) => b.0 == c.path,
                        Err(_) => false,
                    };
                    if tx.send((t, i, got, want, hand)).is_err() {
                        return;
                    }
                }
            });
        }
        drop(tx);
        for _ in 0..threads * per {
            let (t, i, got, want, hand) = match rx.recv_timeout(Duration::from_secs(45)) {
                Ok(x) => x,
                Err(_) => {
                    let c = open.values().next();
                    r.bad(&["C18"], format!("round {}: from_request_sync did not return within 45 s (or its thread died); waiting for {} calls, one of {:?}", round, open.len(), c));
                    return;
                }
            };
            let c = open.remove(&(t, i)).unwrap();
            r.runs += 1;
            r.events += got.1.len();
            let (model, ev) = expected(&c);
            for (k, _) in &c.guards {
                r.count(&format!("guard_{}", k), 1);
            }
            r.count(&format!("feed_{}", c.feed), 1);
            r.class(&format!("{} {} {:?} {}", c.method, c.path.split('/').nth(1).unwrap_or(""), c.guards.iter().map(|g| g.0).collect::<Vec<_>>(), got.0.split(' ').next().unwrap()));
            if got != want {
                r.bad(&["C18"], format!("{:?}: from_request_sync {:?}, from_request in a runtime {:?}", c, got, want));
            }
            if got.1 != ev || model.map_or(false, |m| m != got.0) {
                r.bad(&["C18"], format!("{:?}: from_request_sync {:?}, expected {:?}", c, got, expected(&c)));
            }
            if !hand {
                r.bad(&["C18"], "from_request_sync of a hand-written impl differs".to_string());
            }
            r.sample(serde_json::json!({"case": format!("{:?}", c), "result": got.0, "steps": got.1}));
        }
    }
}
