//! `hyperdrive::blocking` on thread pools of many shapes, far beyond their blocking capacity.

use crate::report::*;
use futures::future::{self, Either, Loop};
use futures::{Async, Future, Poll};
use hyperdrive::blocking;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use tokio_threadpool::ThreadPool;
use vspec::rng::Rng;

/// No future may take this long: everything here needs milliseconds.
const PATIENCE: Duration = Duration::from_secs(40);

type Fut<T, E> = Box<dyn Future<Item = T, Error = E> + Send>;

/// What one closure is meant to do, and how often it did.
struct Job {
    id: u64,
    ok: bool,
    work: u8,
    ran: AtomicUsize,
    created: AtomicUsize,
    polled: AtomicUsize,
    ran_unpolled: AtomicUsize,
}

#[derive(Debug, PartialEq, Clone)]
struct Good(u64, String);
#[derive(Debug, PartialEq, Clone)]
enum Bad {
    Job(u64),
    #[allow(dead_code)]
    Other(String),
}

struct Shared {
    running: AtomicUsize,
    max_running: AtomicUsize,
}

fn closure(j: &Arc<Job>, sh: &Arc<Shared>) -> impl FnOnce() -> Result<Good, Bad> + Send {
    let (j, sh) = (j.clone(), sh.clone());
    // owned data that is moved out when run
    let text = format!("job {}", j.id);
    move || {
        if j.polled.load(Ordering::SeqCst) == 0 {
            j.ran_unpolled.fetch_add(1, Ordering::SeqCst);
        }
        let n = sh.running.fetch_add(1, Ordering::SeqCst) + 1;
        sh.max_running.fetch_max(n, Ordering::SeqCst);
        match j.work {
            0 => (),
            1..=3 => {
                for _ in 0..j.work {
                    thread::yield_now();
                }
            }
            w => thread::sleep(Duration::from_micros(u64::from(w) * 40)),
        }
        j.ran.fetch_add(1, Ordering::SeqCst);
        sh.running.fetch_sub(1, Ordering::SeqCst);
        if j.ok {
            Ok(Good(j.id, text))
        } else {
            Err(Bad::Job(j.id))
        }
    }
}

/// Notes the first poll of a blocking future.
struct Polled<F>(F, Arc<Job>);
impl<F: Future> Future for Polled<F> {
    type Item = F::Item;
    type Error = F::Error;
    fn poll(&mut self) -> Poll<F::Item, F::Error> {
        self.1.polled.fetch_add(1, Ordering::SeqCst);
        self.0.poll()
    }
}

fn watched(j: &Arc<Job>, sh: &Arc<Shared>) -> Fut<Good, Bad> {
    let f = blocking(closure(j, sh));
    j.created.store(1 + j.ran.load(Ordering::SeqCst), Ordering::SeqCst);
    Box::new(Polled(f, j.clone()))
}

/// Yields to the pool `n` times.
struct Yield(usize);
impl Future for Yield {
    type Item = ();
    type Error = Bad;
    fn poll(&mut self) -> Poll<(), Bad> {
        if self.0 == 0 {
            return Ok(Async::Ready(()));
        }
        self.0 -= 1;
        futures::task::current().notify();
        Ok(Async::NotReady)
    }
}

/// Sends the task's outcome, or that it vanished (its future panicked).
struct Outcome(Option<Sender<(usize, Option<Vec<Result<Good, Bad>>>)>>, usize);
impl Outcome {
    fn send(mut self, v: Vec<Result<Good, Bad>>) {
        let _ = self.0.take().unwrap().send((self.1, Some(v)));
    }
}
impl Drop for Outcome {
    fn drop(&mut self) {
        if let Some(s) = self.0.take() {
            let _ = s.send((self.1, None));
        }
    }
}

fn keep(f: Fut<Good, Bad>) -> Fut<Result<Good, Bad>, Bad> {
    Box::new(f.then(Ok))
}

/// One round on one pool. Returns false if the pool hangs.
fn round(r: &mut Report, seed: u64, k: usize, runtime: bool) -> bool {
    let mut rng = Rng::derive(seed, "blocking", k as u64);
    let (size, max) = if runtime { (0, 0) } else { (rng.range(1, 4), rng.range(1, 4)) };
    let ntasks = match rng.below(100) {
        0..=1 => rng.range(500, 2500),
        2..=30 => rng.range(1, 6),
        _ => rng.range(20, 160),
    };
    let mut rt = None;
    let mut pool = None;
    if runtime {
        rt = Some(tokio::runtime::Runtime::new().unwrap());
    } else {
        let mut b = tokio_threadpool::Builder::new();
        b.pool_size(size).max_blocking(max);
        if rng.pct(30) {
            b.keep_alive(Some(Duration::from_millis(1)));
        }
        pool = Some(b.build());
    }
    let sh = Arc::new(Shared {
        running: AtomicUsize::new(0),
        max_running: AtomicUsize::new(0),
    });
    let mut id = 0;
    let mut job = |rng: &mut Rng| {
        id += 1;
        Arc::new(Job {
            id,
            ok: rng.pct(70),
            work: if rng.pct(50) { rng.below(4) as u8 } else { rng.below(20) as u8 },
            ran: AtomicUsize::new(0),
            created: AtomicUsize::new(0),
            polled: AtomicUsize::new(0),
            ran_unpolled: AtomicUsize::new(0),
        })
    };
    let (tx, rx) = channel();
    // (kind, jobs, runs expected of each)
    let mut tasks: Vec<(&'static str, Vec<Arc<Job>>)> = vec![];
    let mut futs: Vec<Fut<(), ()>> = vec![];
    for t in 0..ntasks {
        let out = Outcome(Some(tx.clone()), t);
        match rng.weighted(&[6, 3, 3, 2, 2, 1]) {
            0 => {
                let j = job(&mut rng);
                let f = watched(&j, &sh);
                futs.push(Box::new(f.then(move |x| {
                    out.send(vec![x]);
                    Ok(())
                })));
                tasks.push(("single", vec![j]));
            }
            1 => {
                let js: Vec<_> = (0..rng.range(2, 6)).map(|_| job(&mut rng)).collect();
                let fs: Vec<_> = js.iter().map(|j| keep(watched(j, &sh))).collect();
                futs.push(Box::new(future::join_all(fs).then(move |x| {
                    out.send(x.unwrap());
                    Ok(())
                })));
                tasks.push(("joined", js));
            }
            2 => {
                // one after the other, with pauses on the pool between them
                let js: Vec<_> = (0..rng.range(2, 6)).map(|_| job(&mut rng)).collect();
                let (mut left, sh2, pause) = (js.clone(), sh.clone(), rng.below(3));
                left.reverse();
                let f = future::loop_fn((left, vec![]), move |(mut left, mut acc)| match left.pop() {
                    None => Either::A(future::ok(Loop::Break(acc))),
                    Some(j) => {
                        let sh = sh2.clone();
                        Either::B(
                            Yield(pause)
                                .and_then(move |()| keep(watched(&j, &sh)))
                                .map(move |x| {
                                    acc.push(x);
                                    Loop::Continue((left, acc))
                                }),
                        )
                    }
                });
                futs.push(Box::new(f.then(move |x: Result<_, Bad>| {
                    out.send(x.unwrap());
                    Ok(())
                })));
                tasks.push(("chained", js));
            }
            3 => {
                // the future waits unpolled for a while, then is dropped unpolled
                let (a, b) = (job(&mut rng), job(&mut rng));
                let (f, g) = (watched(&a, &sh), watched(&b, &sh));
                let pause = rng.below(4);
                futs.push(Box::new(Yield(pause).and_then(move |()| {
                    drop(f);
                    g
                }).then(move |x| {
                    out.send(vec![x]);
                    Ok(())
                })));
                tasks.push(("dropped unpolled", vec![a, b]));
            }
            4 => {
                // spawns a child from within the pool
                let (a, b) = (job(&mut rng), job(&mut rng));
                let sh2 = sh.clone();
                let b2 = b.clone();
                futs.push(Box::new(watched(&a, &sh).then(move |x| {
                    tokio_threadpool_spawn(Box::new(keep(watched(&b2, &sh2)).then(move |y| {
                        out.send(vec![x, y.unwrap()]);
                        Ok(())
                    })));
                    Ok(())
                })));
                tasks.push(("spawned", vec![a, b]));
            }
            _ => {
                // values that cannot be cloned, copied or compared pass through as well
                let j = job(&mut rng);
                let f = closure(&j, &sh);
                let cell = Arc::new(Mutex::new(Cell::new(0u8)));
                let c2 = cell.clone();
                let j2 = j.clone();
                let f = Polled(blocking(move || f().map(move |g| (Box::new(g), c2))), j2);
                futs.push(Box::new(f.then(move |x: Result<_, Bad>| {
                    let x = x.map(|(g, c)| {
                        if !Arc::ptr_eq(&c, &cell) {
                            return Good(0, "another object".into());
                        }
                        *g
                    });
                    out.send(vec![x]);
                    Ok(())
                })));
                tasks.push(("owned", vec![j]));
            }
        }
    }
    drop(tx);
    for (kind, js) in &tasks {
        for j in js {
            if j.ran.load(Ordering::SeqCst) != 0 {
                r.bad(&["C16"], format!("round {}: {}: the closure ran when its future was created", k, kind));
            }
        }
    }
    // from outside or from several threads
    if rng.pct(30) {
        let mid = futs.split_off(futs.len() / 2);
        for f in mid {
            spawn(&pool, &mut rt, f);
        }
    }
    for f in futs {
        spawn(&pool, &mut rt, f);
    }
    let end = Instant::now() + PATIENCE;
    let mut done = vec![false; tasks.len()];
    let shape = format!("pool_size={} max_blocking={} tasks={}", size, max, tasks.len());
    for _ in 0..tasks.len() {
        let left = end.checked_duration_since(Instant::now()).unwrap_or_else(|| Duration::from_millis(1));
        match rx.recv_timeout(left) {
            Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                let n = done.iter().filter(|d| !**d).count();
                r.bad(&["C16"], format!("round {} ({}): {} tasks never completed", k, shape, n));
                std::mem::forget(pool);
                std::mem::forget(rt);
                return false;
            }
            Ok((t, None)) => {
                done[t] = true;
                r.bad(&["C16"], format!("round {} ({}): polling the future of a task ({}) panicked", k, shape, tasks[t].0));
            }
            Ok((t, Some(got))) => {
                done[t] = true;
                let (kind, js) = &tasks[t];
                let live: Vec<&Arc<Job>> = if *kind == "dropped unpolled" { js[1..].iter().collect() } else { js.iter().collect() };
                let want: Vec<Result<Good, Bad>> = live
                    .iter()
                    .map(|j| if j.ok { Ok(Good(j.id, format!("job {}", j.id))) } else { Err(Bad::Job(j.id)) })
                    .collect();
                if got != want {
                    r.bad(&["C16"], format!("round {} ({}): {}: results {:?}, expected {:?}", k, shape, kind, got, want));
                }
                r.class(&format!("{} of {} jobs, {} ok, pool {}/{}", kind, js.len(), want.iter().filter(|x| x.is_ok()).count(), size, max));
                r.count(kind, 1);
            }
        }
    }
    if let Some(p) = pool {
        p.shutdown_on_idle().wait().unwrap();
    }
    if let Some(x) = rt {
        x.shutdown_on_idle().wait().unwrap();
    }
    let mut waited = 0;
    for (kind, js) in &tasks {
        for (i, j) in js.iter().enumerate() {
            let want = if *kind == "dropped unpolled" && i == 0 { 0 } else { 1 };
            let ran = j.ran.load(Ordering::SeqCst);
            if ran != want {
                r.bad(&["C16"], format!("round {} ({}): {}: the closure of job {} ran {} times, expected {}", k, shape, kind, i, ran, want));
            }
            if j.ran_unpolled.load(Ordering::SeqCst) > 0 {
                r.bad(&["C16"], format!("round {} ({}): {}: the closure ran before its future was polled", k, shape, kind));
            }
            if j.created.load(Ordering::SeqCst) > 1 {
                r.bad(&["C16"], format!("round {} ({}): {}: the closure had run when blocking() returned", k, shape, kind));
            }
            if j.polled.load(Ordering::SeqCst) > 1 {
                waited += 1;
            }
            r.events += ran;
        }
    }
    r.runs += tasks.len();
    r.count("closures that waited for capacity", waited);
    r.count("waited", waited);
    r.count("concurrent closures (summed maxima)", sh.max_running.load(Ordering::SeqCst));
    if k < 4 {
        r.sample(serde_json::json!({"shape": shape, "jobs": id, "waited": waited, "most at once": sh.max_running.load(Ordering::SeqCst)}));
    }
    true
}

fn tokio_threadpool_spawn(f: Fut<(), ()>) {
    tokio::executor::spawn(f);
}

fn spawn(pool: &Option<ThreadPool>, rt: &mut Option<tokio::runtime::Runtime>, f: Fut<(), ()>) {
    match (pool, rt) {
        (Some(p), _) => p.spawn(f),
        (_, Some(rt)) => {
            rt.spawn(f);
        }
        _ => unreachable!(),
    }
}

/// A future that needs `n` polls, passing a token to its neighbour each time.
struct Plain {
    left: usize,
    hits: Arc<AtomicUsize>,
    tx: Option<Sender<()>>,
}
impl Future for Plain {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if self.left == 0 {
            let _ = self.tx.take().map(|t| t.send(()));
            return Ok(Async::Ready(()));
        }
        self.left -= 1;
        self.hits.fetch_add(1, Ordering::SeqCst);
        futures::task::current().notify();
        Ok(Async::NotReady)
    }
}

/// More blocking closures than the pool has threads of any kind are parked; others must go on.
fn gate(r: &mut Report, seed: u64, k: usize) -> bool {
    let mut rng = Rng::derive(seed, "gate", k as u64);
    let (size, max) = (rng.range(1, 4), rng.range(1, 4));
    let more = match k % 4 {
        0 if k == 0 => 2500,
        0 => *rng.pick(&[40, 130, 300, 700, 1200]),
        _ => rng.range(1, 12),
    };
    let n = size + max + more;
    let shape = format!("pool_size={} max_blocking={} parked={}", size, max, n);
    let pool = tokio_threadpool::Builder::new().pool_size(size).max_blocking(max).build();
    let door = Arc::new((Mutex::new(false), Condvar::new()));
    let ran = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = channel();
    for i in 0..n {
        let (d, ran, out) = (door.clone(), ran.clone(), Outcome(Some(tx.clone()), i));
        pool.spawn(
            blocking(move || {
                ran.fetch_add(1, Ordering::SeqCst);
                let mut open = d.0.lock().unwrap();
                while !*open {
                    open = d.1.wait(open).unwrap();
                }
                if i % 3 == 0 {
                    Err(Bad::Job(i as u64))
                } else {
                    Ok(Good(i as u64, String::new()))
                }
            })
            .then(move |x| {
                out.send(vec![x]);
                Ok(())
            }),
        );
    }
    drop(tx);
    let end = Instant::now() + PATIENCE;
    while ran.load(Ordering::SeqCst) < 1 && Instant::now() < end {
        thread::sleep(Duration::from_micros(200));
    }
    let hits = Arc::new(AtomicUsize::new(0));
    let (ptx, prx) = channel();
    let plain = rng.range(1, 20);
    for _ in 0..plain {
        pool.spawn(Plain {
            left: rng.range(0, 50),
            hits: hits.clone(),
            tx: Some(ptx.clone()),
        });
    }
    drop(ptx);
    let mut ok = true;
    for i in 0..plain {
        if prx.recv_timeout(end.checked_duration_since(Instant::now()).unwrap_or_default()).is_err() {
            r.bad(&["C16"], format!("gate {} ({}): other futures made no progress while closures were parked ({} of {} done)", k, shape, i, plain));
            ok = false;
            break;
        }
    }
    let before = ran.load(Ordering::SeqCst);
    *door.0.lock().unwrap() = true;
    door.1.notify_all();
    if ok {
        for i in 0..n {
            match rx.recv_timeout(PATIENCE) {
                Err(_) => {
                    r.bad(&["C16"], format!("gate {} ({}): only {} parked closures completed", k, shape, i));
                    ok = false;
                    break;
                }
                Ok((t, None)) => r.bad(&["C16"], format!("gate {} ({}): polling the future of task {} panicked", k, shape, t)),
                Ok((t, Some(got))) => {
                    let want = if t % 3 == 0 { Err(Bad::Job(t as u64)) } else { Ok(Good(t as u64, String::new())) };
                    if got != vec![want] {
                        r.bad(&["C16"], format!("gate {} ({}): task {} got {:?}", k, shape, t, got));
                    }
                }
            }
        }
    }
    if !ok {
        std::mem::forget(pool);
        return false;
    }
    pool.shutdown_on_idle().wait().unwrap();
    let ran = ran.load(Ordering::SeqCst);
    if ran != n {
        r.bad(&["C16"], format!("gate {} ({}): {} closures ran", k, shape, ran));
    }
    r.runs += n + plain;
    r.events += hits.load(Ordering::SeqCst) + ran;
    r.count("gates", 1);
    r.count("parked beyond capacity", n.saturating_sub(before));
    r.class(&format!("gate {} {} {}", size, max, n));
    true
}

/// Polls a future a few times, then drops it unless it's done.
struct GiveUp<F: Future> {
    f: Option<F>,
    polls: usize,
}
impl<F: Future> Future for GiveUp<F> {
    type Item = Option<Result<F::Item, F::Error>>;
    type Error = ();
    fn poll(&mut self) -> Poll<Self::Item, ()> {
        match self.f.as_mut().unwrap().poll() {
            Ok(Async::Ready(x)) => return Ok(Async::Ready(Some(Ok(x)))),
            Err(e) => return Ok(Async::Ready(Some(Err(e)))),
            Ok(Async::NotReady) => (),
        }
        self.polls -= 1;
        if self.polls == 0 {
            self.f = None;
            return Ok(Async::Ready(None));
        }
        futures::task::current().notify();
        Ok(Async::NotReady)
    }
}

/// Futures that are dropped while they wait for capacity: their closures never run.
fn give_up(r: &mut Report, seed: u64, k: usize) -> bool {
    let mut rng = Rng::derive(seed, "give up", k as u64);
    let (size, max) = (rng.range(1, 4), rng.range(1, 4));
    let n = rng.range(1, 12);
    let shape = format!("pool_size={} max_blocking={} abandoned={}", size, max, n);
    let pool = tokio_threadpool::Builder::new().pool_size(size).max_blocking(max).build();
    let door = Arc::new((Mutex::new(false), Condvar::new()));
    let parked = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = channel();
    for i in 0..max {
        let (d, parked, out) = (door.clone(), parked.clone(), Outcome(Some(tx.clone()), i));
        pool.spawn(
            blocking(move || {
                parked.fetch_add(1, Ordering::SeqCst);
                let mut open = d.0.lock().unwrap();
                while !*open {
                    open = d.1.wait(open).unwrap();
                }
                Ok(Good(i as u64, String::new()))
            })
            .then(move |x| {
                out.send(vec![x]);
                Ok(())
            }),
        );
    }
    let end = Instant::now() + PATIENCE;
    while parked.load(Ordering::SeqCst) < max {
        if Instant::now() > end {
            r.bad(&["C16"], format!("give up {} ({}): only {} closures started", k, shape, parked.load(Ordering::SeqCst)));
            std::mem::forget(pool);
            return false;
        }
        thread::sleep(Duration::from_micros(100));
    }
    // there's no capacity left
    let ran = Arc::new(AtomicUsize::new(0));
    let life = Arc::new(());
    let (dtx, drx) = channel();
    for _ in 0..n {
        let (ran, life, dtx) = (ran.clone(), life.clone(), dtx.clone());
        let f = blocking(move || -> Result<(), Bad> {
            let _life = life;
            ran.fetch_add(1, Ordering::SeqCst);
            Ok(())
        });
        let polls = rng.range(1, 6);
        pool.spawn(GiveUp { f: Some(f), polls }.then(move |x| {
            let _ = dtx.send(x.unwrap().is_none());
            Ok(())
        }));
    }
    drop(dtx);
    let mut bad = vec![];
    for i in 0..n {
        match drx.recv_timeout(PATIENCE) {
            Ok(true) => r.count("dropped while waiting", 1),
            Ok(false) => bad.push("a closure ran although more than max_blocking were running".to_string()),
            Err(_) => {
                bad.push(format!("only {} of the futures that wait for capacity could be polled", i));
                break;
            }
        }
    }
    let early = ran.load(Ordering::SeqCst);
    *door.0.lock().unwrap() = true;
    door.1.notify_all();
    for i in 0..max {
        match rx.recv_timeout(PATIENCE) {
            Ok((t, got)) => {
                if got != Some(vec![Ok(Good(t as u64, String::new()))]) {
                    bad.push(format!("task {} got {:?}", t, got));
                }
            }
            Err(_) => {
                bad.push(format!("only {} parked closures completed", i));
                break;
            }
        }
    }
    thread::sleep(Duration::from_micros(300));
    let late = ran.load(Ordering::SeqCst);
    if late > 0 {
        bad.push(format!("{} closures of futures dropped while they waited for capacity ran ({} of them before there was any)", late, early));
    }
    if bad.is_empty() && Arc::strong_count(&life) > 1 {
        bad.push(format!("{} closures of dropped futures are still alive", Arc::strong_count(&life) - 1));
    }
    r.runs += n + max;
    r.events += n + max;
    r.class(&format!("give up {} {} {}", size, max, n));
    let ok = bad.is_empty();
    for b in bad {
        r.bad(&["C16"], format!("give up {} ({}): {}", k, shape, b));
    }
    if ok {
        let _ = pool.shutdown_now().wait();
    } else {
        std::mem::forget(pool);
    }
    ok
}

pub fn run(o: &mut Opts, r: &mut Report) {
    for k in 0..o.n {
        if !round(r, o.seed, k, k % 12 == 11) {
            return;
        }
        if k % 3 == 0 && !gate(r, o.seed, k) {
            return;
        }
        if k % 3 == 1 && !give_up(r, o.seed, k) {
            return;
        }
    }
}
