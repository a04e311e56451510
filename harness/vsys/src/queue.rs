//! Known finding: a call to a `SyncService` that is abandoned while it waits for blocking capacity.

use crate::report::*;
use futures::{Async, Future, Poll};
use hyper::service::Service;
use hyper::{Body, Request, Response};
use hyperdrive::service::SyncService;
use hyperdrive::FromRequest;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(FromRequest)]
enum Route {
    #[get("/{n}")]
    N { n: usize },
}

/// Polls `f` until told to stop, then drops it.
struct Stoppable<F> {
    f: Option<F>,
    stop: Arc<AtomicBool>,
    waiting: Arc<AtomicUsize>,
    task: Arc<Mutex<Option<futures::task::Task>>>,
}
impl<F: Future> Future for Stoppable<F> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        *self.task.lock().unwrap() = Some(futures::task::current());
        if self.stop.load(Ordering::SeqCst) {
            self.f = None;
            self.waiting.store(2, Ordering::SeqCst);
            return Ok(Async::Ready(()));
        }
        match self.f.as_mut().unwrap().poll() {
            Ok(Async::NotReady) => {
                self.waiting.store(1, Ordering::SeqCst);
                Ok(Async::NotReady)
            }
            _ => Ok(Async::Ready(())),
        }
    }
}

fn until(f: impl Fn() -> bool, secs: u64) -> bool {
    for _ in 0..secs * 1000 {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    false
}

/// `max` blocking threads are occupied, `max` further calls wait; if `abandon`, the waiting ones are dropped.
/// Returns whether a later call is answered.
fn scenario(max: usize, abandon: bool) -> Result<bool, String> {
    let pool = tokio_threadpool::Builder::new().pool_size(2).max_blocking(max).build();
    let gate = Arc::new((Mutex::new(false), Condvar::new()));
    let running = Arc::new(AtomicUsize::new(0));
    let (g, run) = (gate.clone(), running.clone());
    let svc = SyncService::new(move |r: Route, _| {
        let Route::N { n } = r;
        run.fetch_add(1, Ordering::SeqCst);
        if n == 0 {
            let mut open = g.0.lock().unwrap();
            while !*open {
                open = g.1.wait(open).unwrap();
            }
        }
        Response::new(Body::from(n.to_string()))
    });
    let call = |n: usize| svc.clone().call(Request::get(format!("/{}", n)).body(Body::empty()).unwrap());
    let (tx, rx) = channel();
    for _ in 0..max {
        let tx = tx.clone();
        pool.spawn(call(0).then(move |r| {
            let _ = tx.send(r.is_ok());
            Ok(())
        }));
    }
    if !until(|| running.load(Ordering::SeqCst) == max, 30) {
        return Err("the first calls never ran".into());
    }
    let mut waiting = vec![];
    for k in 0..max {
        let stop = Arc::new(AtomicBool::new(false));
        let w = Arc::new(AtomicUsize::new(0));
        let task = Arc::new(Mutex::new(None));
        pool.spawn(Stoppable {
            f: Some(call(k + 1)),
            stop: stop.clone(),
            waiting: w.clone(),
            task: task.clone(),
        });
        waiting.push((stop, w, task));
    }
    if !until(|| waiting.iter().all(|w| w.1.load(Ordering::SeqCst) == 1), 30) {
        return Err("the queued calls never started waiting".into());
    }
    if abandon {
        for (stop, _, task) in &waiting {
            stop.store(true, Ordering::SeqCst);
            if let Some(t) = task.lock().unwrap().take() {
                t.notify();
            }
        }
        if !until(|| waiting.iter().all(|w| w.1.load(Ordering::SeqCst) == 2), 30) {
            return Err("the queued calls were never dropped".into());
        }
    }
    *gate.0.lock().unwrap() = true;
    gate.1.notify_all();
    for _ in 0..max {
        if rx.recv_timeout(Duration::from_secs(30)) != Ok(true) {
            return Err("the first calls did not finish".into());
        }
    }
    let (tx, rx) = channel();
    pool.spawn(call(99).then(move |r| {
        let _ = tx.send(r.is_ok());
        Ok(())
    }));
    let answered = rx.recv_timeout(Duration::from_secs(if abandon { 4 } else { 30 })).is_ok();
    if !answered {
        // its threads are of no use any more
        std::mem::forget(pool);
    }
    Ok(answered)
}

pub fn run(_o: &mut Opts, r: &mut Report) {
    for max in 1..=3 {
        for abandon in &[false, true] {
            r.runs += 1;
            r.class(&format!("max_blocking={} abandon={}", max, abandon));
            match scenario(max, *abandon) {
                Ok(true) => r.count("answered", 1),
                Ok(false) if *abandon => r.bad_key(
                    &["C14"],
                    format!("SyncService: after {} calls were abandoned while they waited for blocking capacity (max_blocking={}), a later call is never answered", max, max),
                    Some("sync-abandoned-while-queued"),
                ),
                Ok(false) => r.bad(&["C14", "C16"], format!("max_blocking={}: a call was not answered within 30 s", max)),
                Err(e) => r.bad(&["C14", "C16"], format!("max_blocking={} abandon={}: {}", max, abandon, e)),
            }
        }
    }
}
