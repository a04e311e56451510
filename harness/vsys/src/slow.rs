//! Decodes, handlers, panics and blocking closures that take seconds, all at the same time.

use crate::report::*;
use crate::sync::{delay, echo_server, expected, make, request, sync, text, Case, Log, Route};
use futures::future;
use futures::{Future, Stream};
use hyper::service::Service;
use hyper::{Body, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromRequest};
use std::collections::BTreeMap;
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use vspec::rng::Rng;

/// A decode that spends most of `ms` milliseconds in one of its guards or in its body.
fn slow(rng: &mut Rng, ms: u64) -> Case {
    loop {
        let mut c = make(rng);
        for g in c.guards.iter_mut() {
            *g = (*rng.pick(&["ready", "delay", "yield", "spawned", "thread"]), g.1);
        }
        let wants_body = c.method == "POST" || c.method == "PUT";
        let i = match &c.path[..] {
            "/none/x" | "/nope" | "/json/1" => continue,
            "/in/y" => *rng.pick(&[0, 2]),
            "/in/z" => 0,
            p if p.starts_with("/json") => rng.below(2),
            _ => rng.below(3),
        };
        c.feed = 0;
        if wants_body && rng.pct(50) {
            // by chunk of three bytes
            c.feed = rng.range(1, 2);
            let chunks = (c.body.len() as u64 + 2) / 3;
            let unit = if c.feed == 1 { 5 } else { 3 };
            c.feeds = ms * unit / chunks.max(1);
        } else {
            c.guards[i] = (*rng.pick(&["delay", "delay", "spawned", "thread", "late_fail"]), ms * 10 / 3);
        }
        return c;
    }
}

fn log_at(addr: std::net::SocketAddr) -> Log {
    Log {
        lines: Arc::new(Mutex::new(vec![])),
        addr,
    }
}

fn answer(r: &Route) -> Response<Body> {
    Response::builder().status(209).header("x-slow", "1").body(Body::from(format!("{:?}", r))).unwrap()
}

fn wait_for(ms: u64) -> impl Future<Item = (), Error = BoxedError> + Send {
    future::lazy(move || delay(ms * 10 / 3))
}

fn show(r: Result<Response<Body>, BoxedError>) -> DefaultFuture<String, ()> {
    match r {
        Ok(r) => {
            let status = r.status().as_u16();
            Box::new(r.into_body().concat2().then(move |b| match b {
                Ok(b) => Ok(format!("{} {}", status, String::from_utf8_lossy(&b))),
                Err(e) => Ok(format!("{} {}", status, e)),
            }))
        }
        Err(e) => Box::new(future::ok(format!("error {}", e))),
    }
}

pub fn run(o: &mut Opts, r: &mut Report) {
    let addr = echo_server();
    let mut rng = Rng::derive(o.seed, "slow", 0);
    // up to 6 s in the quick tier
    let longest = 6_200 * o.n as u64;
    let mut rt = tokio::runtime::Builder::new().core_threads(4).blocking_threads(200).build().unwrap();
    let (tx, rx) = channel::<(usize, String, Vec<String>)>();
    // blame, what, wanted result and steps
    let mut open: BTreeMap<usize, (&'static [&'static str], String, Option<String>, Vec<String>)> = BTreeMap::new();
    let start = Instant::now();
    let lengths: Vec<u64> = (0..240).map(|i| if i % 3 == 0 { longest } else { 1_050 + rng.below(longest as usize - 1_050) as u64 }).collect();
    for (i, ms) in lengths.into_iter().enumerate() {
        let tx = tx.clone();
        let kind = ["from_request", "from_request_sync", "async", "sync", "async+catch_unwind", "sync+catch_unwind", "blocking", "from_request"][i % 8];
        r.count(kind, 1);
        r.class(&format!("{} {}", kind, ms / 700));
        match kind {
            "from_request" | "from_request_sync" => {
                let c = slow(&mut rng, ms);
                let (want, ev) = expected(&c);
                let blame: &'static [&'static str] = if kind == "from_request_sync" { &["C18"] } else { &["C07", "C09", "C22"] };
                open.insert(i, (blame, format!("{} {:?}", kind, c), want, ev));
                if kind == "from_request" {
                    let log = log_at(addr);
                    let lines = log.lines.clone();
                    rt.spawn(future::lazy(move || Route::from_request(request(&c), log)).then(move |x| {
                        let ev = lines.lock().unwrap().clone();
                        let _ = tx.send((i, text(Ok(x)), ev));
                        Ok(())
                    }));
                } else {
                    thread::spawn(move || {
                        let (x, ev) = sync(&c, addr);
                        let _ = tx.send((i, x, ev));
                    });
                }
            }
            "blocking" => {
                let ok = rng.pct(70);
                let want = if ok { format!("ok {}", i) } else { format!("err {}", i) };
                open.insert(i, (&["C16"], format!("blocking for {} ms", ms), Some(want), vec!["ran".into()]));
                let lines = Arc::new(Mutex::new(vec![]));
                let l2 = lines.clone();
                rt.spawn(
                    hyperdrive::blocking(move || {
                        l2.lock().unwrap().push("ran".to_string());
                        thread::sleep(Duration::from_millis(ms));
                        if ok {
                            Ok(i)
                        } else {
                            Err(i)
                        }
                    })
                    .then(move |x| {
                        let t = match x {
                            Ok(i) => format!("ok {}", i),
                            Err(i) => format!("err {}", i),
                        };
                        let ev = lines.lock().unwrap().clone();
                        let _ = tx.send((i, t, ev));
                        Ok(())
                    }),
                );
            }
            _ => {
                // a decode without delays of its own, unless it's the one that takes long
                let in_decode = rng.pct(30);
                let mut c = slow(&mut rng, if in_decode { ms } else { 1 });
                for g in c.guards.iter_mut().filter(|g| g.0 == "late_fail") {
                    g.0 = "delay";
                }
                let ms = if in_decode { 0 } else { ms };
                let (want, mut ev) = expected(&c);
                let decoded = match &want {
                    Some(w) if w.starts_with("ok ") => Some(w[3..].to_string()),
                    Some(w) if w.starts_with("error 404") => None,
                    _ => continue,
                };
                let panics = decoded.is_some() && kind.ends_with("catch_unwind") && rng.pct(60);
                let fails = decoded.is_some() && !panics && kind.starts_with("async") && rng.pct(15);
                if decoded.is_some() {
                    ev.push("handler".into());
                }
                let text = match decoded {
                    None => "404 ".to_string(),
                    Some(_) if panics => format!("598 slow panic {}", i),
                    Some(_) if fails => format!("error slow error {}", i),
                    Some(d) => format!("209 {}", d),
                };
                if panics {
                    ev.push("caught".into());
                }
                let blame: &'static [&'static str] = if panics {
                    &["C15"]
                } else if text.starts_with("404") || fails {
                    &["C12"]
                } else {
                    &["C14"]
                };
                open.insert(i, (blame, format!("{} ({} ms in the handler) {:?}", kind, ms, c), Some(text), ev));
                let log = log_at(addr);
                let lines = log.lines.clone();
                let (l2, l3) = (lines.clone(), lines.clone());
                let q = request(&c);
                let caught = move |p: Box<dyn std::any::Any + Send>| {
                    l3.lock().unwrap().push("caught".into());
                    let text = p.downcast_ref::<String>().cloned().unwrap_or_default();
                    wait_for(if ms % 2 == 0 { ms / 3 } else { 0 }).map(move |()| Response::builder().status(598).body(Body::from(text)).unwrap())
                };
                let call: DefaultFuture<Response<Body>, BoxedError> = if kind.starts_with("async") {
                    let mut s = AsyncService::with_context(
                        move |route: Route, _| {
                            l2.lock().unwrap().push("handler".into());
                            wait_for(ms).and_then(move |()| {
                                if panics {
                                    panic!("slow panic {}", i);
                                }
                                if fails {
                                    return Err(format!("slow error {}", i).into());
                                }
                                Ok(answer(&route))
                            })
                        },
                        log,
                    );
                    if kind == "async" {
                        Box::new(future::lazy(move || s.call(q)))
                    } else {
                        let mut s = s.catch_unwind(caught);
                        Box::new(future::lazy(move || s.call(q)))
                    }
                } else {
                    let mut s = SyncService::with_context(
                        move |route: Route, _| {
                            l2.lock().unwrap().push("handler".into());
                            thread::sleep(Duration::from_millis(ms));
                            if panics {
                                panic!("slow panic {}", i);
                            }
                            answer(&route)
                        },
                        log,
                    );
                    if kind == "sync" {
                        Box::new(future::lazy(move || s.call(q)))
                    } else {
                        let mut s = s.catch_unwind(caught);
                        Box::new(future::lazy(move || s.call(q)))
                    }
                };
                rt.spawn(call.then(show).then(move |x| {
                    let ev = lines.lock().unwrap().clone();
                    let _ = tx.send((i, x.unwrap(), ev));
                    Ok(())
                }));
            }
        }
    }
    drop(tx);
    let limit = start + Duration::from_millis(longest * 3 / 2) + Duration::from_secs(45);
    while !open.is_empty() {
        let left = limit.checked_duration_since(Instant::now()).unwrap_or_default();
        match rx.recv_timeout(left) {
            Ok((i, got, steps)) => {
                let (blame, what, want, ev) = open.remove(&i).unwrap();
                r.runs += 1;
                r.events += steps.len() + 1;
                r.count("completed", 1);
                if want.as_ref().map_or(false, |w| *w != got) || ev != steps {
                    r.bad(blame, format!("{}: got {} after {:?}, expected {} after {:?}", what, got, steps, want.unwrap_or("anything".into()), ev));
                }
            }
            Err(_) => {
                let mut seen: Vec<&str> = vec![];
                for (blame, what, want, _) in open.values() {
                    if !seen.contains(&blame[0]) {
                        seen.push(blame[0]);
                        r.bad(blame, format!("{}: no result after {} s, expected {}", what, start.elapsed().as_secs(), want.as_ref().map_or("one", |w| &w[..])));
                    }
                }
                std::mem::forget(rt);
                return;
            }
        }
    }
    r.sample(serde_json::json!({"slowest_ms": longest, "took_s": start.elapsed().as_secs_f64()}));
    let _ = rt.shutdown_now().wait();
}
