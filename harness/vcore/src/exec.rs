//! Executors with observable scheduling.

use crate::model::{ErrKind, Res};
use crate::session::*;
use crate::types::{source_text, Node};
use futures::executor::{self, Notify, Spawn};
use futures::{Async, Future};
use hyperdrive::BoxedError;
use std::any::Any;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub type NodeFut = Box<dyn Future<Item = Node, Error = BoxedError> + Send>;

#[derive(Default)]
pub struct Flag(pub AtomicBool);
impl Notify for Flag {
    fn notify(&self, _: usize) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    payload(p).1
}

fn stream_code(e: &hyper::Error) -> Option<u64> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(c) = cur {
        if let Some(s) = c.downcast_ref::<StreamErr>() {
            return Some(s.0);
        }
        cur = c.source();
    }
    // hyper 0.12 only has `cause2`
    e.cause2().and_then(|c| c.downcast_ref::<StreamErr>()).map(|s| s.0)
}

pub fn err_kind(e: &BoxedError) -> ErrKind {
    if let Some(h) = e.downcast_ref::<hyperdrive::Error>() {
        let allow = h
            .allowed_methods()
            .map(|m| m.iter().map(|m| m.to_string()).collect::<BTreeSet<_>>());
        // the response must agree with the error
        let resp = h.response();
        if resp.status() != h.http_status() {
            return ErrKind::Other(format!("response status {} of {:?}", resp.status(), h));
        }
        let hdr = resp.headers().get_all("allow").iter().collect::<Vec<_>>();
        match &allow {
            Some(a) => {
                let listed: BTreeSet<String> = match &hdr[..] {
                    [v] => v
                        .to_str()
                        .unwrap_or("?")
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect(),
                    _ => return ErrKind::Other(format!("{} Allow headers for {:?}", hdr.len(), h)),
                };
                if listed != *a {
                    return ErrKind::Other(format!("Allow header {:?} for {:?}", listed, a));
                }
            }
            None => {
                if !hdr.is_empty() {
                    return ErrKind::Other(format!("unexpected Allow header {:?} for {:?}", hdr, h));
                }
            }
        }
        return ErrKind::Hyper {
            status: h.http_status().as_u16(),
            allow,
            source: h.source().map(source_text),
        };
    }
    if let Some(c) = planned_code(e) {
        return ErrKind::Plan(c);
    }
    if let Some(p) = e.downcast_ref::<serde_json::Error>() {
        return ErrKind::Json(p.to_string());
    }
    if let Some(p) = e.downcast_ref::<serde::de::value::Error>() {
        return ErrKind::Form(p.to_string());
    }
    if let Some(p) = e.downcast_ref::<hyper::Error>() {
        return match stream_code(p) {
            Some(c) => ErrKind::Stream(c),
            None => ErrKind::Other(format!("hyper error {:?}", p)),
        };
    }
    ErrKind::Other(format!("{:?}", e))
}

pub fn to_res(r: Result<Node, BoxedError>) -> Res {
    match r {
        Ok(n) => Res::Ok(n),
        Err(e) => Res::Err(err_kind(&e)),
    }
}

/// One decode being driven by hand.
pub struct Driven {
    pub s: Arc<Session>,
    fut: Option<Spawn<NodeFut>>,
    flag: Arc<Flag>,
    pub polls: usize,
    pub done: Option<Res>,
}

impl Driven {
    /// Creates the future with `make` (which may panic).
    pub fn start<F: FnOnce() -> NodeFut>(s: &Arc<Session>, make: F) -> Driven {
        let _g = Enter::new(s);
        let (fut, done) = match catch_unwind(AssertUnwindSafe(make)) {
            Ok(f) => (Some(executor::spawn(f)), None),
            Err(p) => (None, Some(Res::Panic(panic_text(&*p)))),
        };
        let flag = Arc::new(Flag::default());
        flag.0.store(true, Ordering::SeqCst);
        Driven {
            s: s.clone(),
            fut,
            flag,
            polls: 0,
            done,
        }
    }

    /// Polls once, regardless of notifications.
    pub fn poll(&mut self) {
        if self.done.is_some() {
            return;
        }
        let _g = Enter::new(&self.s);
        self.flag.0.store(false, Ordering::SeqCst);
        self.polls += 1;
        let flag = self.flag.clone();
        let fut = self.fut.as_mut().expect("future gone");
        match catch_unwind(AssertUnwindSafe(|| fut.poll_future_notify(&flag, 0))) {
            Ok(Ok(Async::NotReady)) => {}
            Ok(Ok(Async::Ready(n))) => self.done = Some(Res::Ok(n)),
            Ok(Err(e)) => self.done = Some(Res::Err(err_kind(&e))),
            Err(p) => self.done = Some(Res::Panic(panic_text(&*p))),
        }
    }

    pub fn notified(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }

    /// Polls only when notified; fires external wake-ups one by one. Returns false once nothing
    /// can make progress any more.
    pub fn step(&mut self) -> bool {
        if self.done.is_some() {
            return false;
        }
        if self.notified() {
            self.poll();
            true
        } else {
            self.s.fire()
        }
    }

    /// Drops the future.
    pub fn drop_future(&mut self) {
        let _g = Enter::new(&self.s);
        let f = self.fut.take();
        if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(f))) {
            self.done = Some(Res::Panic(format!("in drop: {}", panic_text(&*p))));
        }
    }

    pub fn result(&self) -> Res {
        self.done.clone().unwrap_or(Res::Stall)
    }
}
