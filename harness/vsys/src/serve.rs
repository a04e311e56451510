//! The adapters handed to a real hyper server, asked by many keep-alive clients at once.

use crate::report::*;
use futures::future::{self, Loop};
use futures::{Future, Stream};
use hyper::{Body, Client, Method, Request, Response, Server};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{body::Json, BoxedError, FromRequest, Guard, RequestContext};
use serde::Deserialize;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vspec::rng::Rng;

#[derive(Clone, Debug, RequestContext)]
struct Ctx {
    #[as_ref]
    log: Log,
    tag: u64,
}

#[derive(Clone, Debug, RequestContext)]
struct Log(Arc<Mutex<Vec<String>>>, u64);

#[derive(Debug)]
struct Id(u64);
impl Guard for Id {
    type Context = Log;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<http::Request<()>>, c: &Log) -> Self::Result {
        let id = r.headers().get("x-id").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(0);
        c.0.lock().unwrap().push(format!("guard {} {}", c.1, id));
        Ok(Id(id))
    }
}

#[derive(Deserialize, Debug)]
struct Data {
    id: u64,
    text: String,
}

#[derive(FromRequest, Debug)]
#[context(Ctx)]
enum Route {
    #[get("/n/{n}")]
    N { n: u64, id: Id },
    #[post("/json")]
    J {
        id: Id,
        #[body]
        data: Json<Data>,
    },
    #[get("/panic/{n}")]
    Panic { n: u64 },
}

type Calls = Arc<Mutex<BTreeMap<u64, Vec<String>>>>;

fn answer(calls: &Calls, r: Route, orig: &http::Request<()>) -> Response<Body> {
    let id: u64 = orig.headers().get("x-id").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(0);
    let line = match r {
        Route::N { n, id: g } => format!("{} n={} guard={} {}", orig.method(), n, g.0, orig.uri()),
        Route::J { id: g, data } => format!("{} id={} text={} guard={} {}", orig.method(), data.0.id, data.0.text, g.0, orig.uri()),
        Route::Panic { n } => {
            calls.lock().unwrap().entry(id).or_insert_with(Vec::new).push(format!("panic {}", n));
            panic!("planned panic {}", n)
        }
    };
    calls.lock().unwrap().entry(id).or_insert_with(Vec::new).push(line.clone());
    Response::builder().header("x-id", id.to_string()).body(Body::from(line)).unwrap()
}

struct Want {
    status: u16,
    body: String,
    calls: usize,
    allow: Option<&'static str>,
}

fn ask(rng: &mut Rng, addr: &std::net::SocketAddr, id: u64, panics: bool) -> (Request<Body>, Want) {
    let mut b = Request::builder();
    b.header("x-id", id.to_string());
    let base = format!("http://{}", addr);
    let mk = |status, body: String, calls, allow| Want { status, body, calls, allow };
    match rng.below(if panics { 7 } else { 6 }) {
        0 | 1 => {
            let q = format!("/n/{}?q={}", id, id);
            let line = format!("GET n={} guard={} {}", id, id, q);
            (b.uri(base + &q).body(Body::empty()).unwrap(), mk(200, line, 1, None))
        }
        2 => {
            let q = format!("/n/{}", id);
            (b.method(Method::HEAD).uri(base + &q).body(Body::empty()).unwrap(), mk(200, String::new(), 1, None))
        }
        3 => {
            let text = format!("t{}", id);
            let j = format!("{{\"id\":{},\"text\":\"{}\"}}", id, text);
            let line = format!("POST id={} text={} guard={} /json", id, text, id);
            let body = if rng.pct(50) {
                Body::from(j)
            } else {
                let cut = rng.below(j.len());
                let (x, y) = (j[..cut].to_string(), j[cut..].to_string());
                Body::wrap_stream(futures::stream::iter_ok::<_, std::io::Error>(vec![x, y]))
            };
            (b.method(Method::POST).uri(base + "/json").body(body).unwrap(), mk(200, line, 1, None))
        }
        4 => (b.uri(base + "/n/zz").body(Body::empty()).unwrap(), mk(404, String::new(), 0, None)),
        5 => (b.method(Method::PUT).uri(base + "/json").body(Body::empty()).unwrap(), mk(405, String::new(), 0, Some("POST"))),
        _ => (b.uri(base + &format!("/panic/{}", id)).body(Body::empty()).unwrap(), mk(500, format!("caught planned panic {}", id), 1, None)),
    }
}

fn clients(rt: &mut tokio::runtime::Runtime, addr: std::net::SocketAddr, name: &str, k: usize, o: &Opts, calls: &Calls, panics: bool, r: &mut Report) -> bool {
    let client = Client::builder().keep_alive(true).max_idle_per_host(16).build_http::<Body>();
    let mut rng = Rng::derive(o.seed, name, k as u64);
    let lanes = rng.range(2, 24);
    let per = 30;
    let results = Arc::new(Mutex::new(vec![]));
    let mut wants = BTreeMap::new();
    let mut all = vec![];
    for lane in 0..lanes {
        let mut reqs = vec![];
        for i in 0..per {
            let id = 1 + (lane * per + i) as u64 + 100_000 * (k as u64 + 1);
            let (q, w) = ask(&mut rng, &addr, id, panics);
            wants.insert(id, w);
            reqs.push((id, q));
        }
        reqs.reverse();
        let (client, results) = (client.clone(), results.clone());
        all.push(future::loop_fn(reqs, move |mut reqs| -> Box<dyn Future<Item = Loop<(), Vec<(u64, Request<Body>)>>, Error = ()> + Send> {
            let (id, q) = match reqs.pop() {
                None => return Box::new(future::ok(Loop::Break(()))),
                Some(x) => x,
            };
            let results = results.clone();
            Box::new(
                client
                    .request(q)
                    .and_then(|resp| {
                        let (p, b) = resp.into_parts();
                        b.concat2().map(move |b| (p, b))
                    })
                    .then(move |x| {
                        let x = x
                            .map(|(p, b)| (p.status.as_u16(), p.headers.get("allow").map(|v| v.to_str().unwrap().to_string()), String::from_utf8_lossy(&b).to_string()))
                            .map_err(|e| e.to_string());
                        results.lock().unwrap().push((id, x));
                        Ok(Loop::Continue(reqs))
                    }),
            )
        }));
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let total = lanes * per;
    rt.spawn(future::join_all(all).then(move |_| {
        let _ = tx.send(());
        Ok(())
    }));
    let done = rx.recv_timeout(Duration::from_secs(60)).is_ok();
    let res = results.lock().unwrap();
    if !done {
        r.bad(&["C14", "C20"], format!("{} {}: {} of {} requests were not answered within 60 s", name, k, total - res.len(), total));
    }
    let calls = calls.lock().unwrap();
    for (id, got) in res.iter() {
        let w = &wants[id];
        let seen = calls.get(id).map_or(0, |v| v.len());
        r.runs += 1;
        r.events += seen + 1;
        r.class(&format!("{} {} {}", name, w.status, w.body.is_empty()));
        r.count("answered", 1);
        match got {
            Err(e) => r.bad(&["C14", "C20"], format!("{} {}: request {} got no response: {}", name, k, id, e)),
            Ok((status, allow, body)) => {
                if seen != w.calls {
                    r.bad(if w.calls == 0 { &["C12"] } else { &["C14"] }, format!("{} {}: the handler was called {} times for request {}", name, k, seen, id));
                }
                if *status != w.status || *body != w.body || (w.allow.is_some() && allow.as_ref().map(|s| s.as_str()) != w.allow) {
                    let blame: &[&str] = match w.status {
                        404 | 405 => &["C12"],
                        500 => &["C15"],
                        _ => &["C14"],
                    };
                    r.bad(blame, format!("{} {}: request {} got {} {:?} {:?}, expected {} {:?} {:?}", name, k, id, status, allow, body, w.status, w.allow, w.body));
                }
            }
        }
    }
    done
}

fn caught(p: Box<dyn std::any::Any + Send>) -> Result<Response<Body>, BoxedError> {
    let text = p.downcast_ref::<String>().cloned().unwrap_or_default();
    Ok(Response::builder().status(500).body(Body::from(format!("caught {}", text))).unwrap())
}

pub fn run(o: &mut Opts, r: &mut Report) {
    for k in 0..o.n {
        for name in &["async", "sync", "async+catch_unwind", "sync+catch_unwind"] {
            let mut rt = tokio::runtime::Builder::new().core_threads(4).blocking_threads(8).build().unwrap();
            let calls: Calls = Arc::new(Mutex::new(BTreeMap::new()));
            let log = Arc::new(Mutex::new(vec![]));
            let ctx = Ctx {
                log: Log(log.clone(), k as u64),
                tag: 5,
            };
            let _ = ctx.tag;
            let addr = "127.0.0.1:0".parse().unwrap();
            let (c1, c2) = (calls.clone(), calls.clone());
            let a = AsyncService::with_context(
                move |route: Route, orig: Arc<http::Request<()>>| {
                    let c = c1.clone();
                    future::lazy(move || Ok(answer(&c, route, &orig)))
                },
                ctx.clone(),
            );
            let s = SyncService::with_context(move |route: Route, orig: Arc<http::Request<()>>| answer(&c2, route, &orig), ctx);
            let bind = || Server::bind(&addr);
            let mut panics = false;
            // `bind` needs the runtime's reactor
            let (at, srv): (std::net::SocketAddr, Box<dyn Future<Item = (), Error = ()> + Send>) = match *name {
                "async" => {
                    let s = bind().serve(a);
                    (s.local_addr(), Box::new(s.map_err(|_| ())))
                }
                "sync" => {
                    let s = bind().serve(s);
                    (s.local_addr(), Box::new(s.map_err(|_| ())))
                }
                "async+catch_unwind" => {
                    panics = true;
                    let s = bind().serve(a.catch_unwind(caught).make_service_by_cloning());
                    (s.local_addr(), Box::new(s.map_err(|_| ())))
                }
                _ => {
                    panics = true;
                    let s = bind().serve(s.catch_unwind(caught).make_service_by_cloning());
                    (s.local_addr(), Box::new(s.map_err(|_| ())))
                }
            };
            let (stop, stopped) = futures::sync::oneshot::channel::<()>();
            rt.spawn(srv.select(stopped.map_err(|_| ())).then(|_| Ok(())));
            let ok = clients(&mut rt, at, name, k, o, &calls, panics, r);
            let _ = stop.send(());
            r.count("guards run", log.lock().unwrap().len());
            if !ok {
                std::mem::forget(rt);
                return;
            }
            let _ = rt.shutdown_now().wait();
        }
    }
}
