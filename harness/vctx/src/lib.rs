//! Support for generated `RequestContext` types (driver/ctxgen.py): observation without assuming
//! that an impl exists, guards and body decoders that note what context they were given.

use futures::{Future, Stream};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, Guard, NoContext, RequestContext};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::Arc;

macro_rules! wrappers {
    ($($n:ident)*) => {$(
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
        pub struct $n(pub u64);
    )*};
}
wrappers!(W0 W1 W2 W3 W4 W5 W6 W7 W8 W9);
/// Stays on its thread.
#[derive(Debug, Clone)]
pub struct Local(pub u64, PhantomData<std::rc::Rc<u8>>);
impl Local {
    pub fn new(n: u64) -> Self {
        Local(n, PhantomData)
    }
}
impl Named for Local {
    const NAME: &'static str = "Local";
}
#[derive(Debug, Clone, Default)]
pub struct Zst;
#[derive(Debug, Clone)]
pub struct Gen<T>(pub u64, pub T);
pub trait Named {
    const NAME: &'static str;
}
impl Named for W6 {
    const NAME: &'static str = "W6";
}
impl Named for W7 {
    const NAME: &'static str = "W7";
}

/// Inherent items are preferred to those of traits, so these tell whether `T: AsRef<U>` without
/// requiring it.
pub struct Probe<T: ?Sized, U: ?Sized>(PhantomData<T>, PhantomData<U>);
pub trait Absent<T: ?Sized, U: ?Sized> {
    const HAS: bool = false;
    fn look(_: &T) -> Option<&U> {
        None
    }
}
impl<T: ?Sized, U: ?Sized> Absent<T, U> for Probe<T, U> {}
impl<T: AsRef<U> + ?Sized, U: ?Sized> Probe<T, U> {
    pub const HAS: bool = true;
    pub fn look(t: &T) -> Option<&U> {
        Some(t.as_ref())
    }
}
pub struct IsCtx<T>(PhantomData<T>);
pub trait NoCtx {
    const YES: bool = false;
}
impl<T> NoCtx for IsCtx<T> {}
impl<T: RequestContext> IsCtx<T> {
    pub const YES: bool = true;
}

/// A guard noting the context it is given.
pub struct Saw<C>(pub String, PhantomData<fn() -> C>);
impl<C: RequestContext + Debug> Guard for Saw<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, c: &C) -> Self::Result {
        Ok(Saw(format!("{:?}", c), PhantomData))
    }
}
/// Same, but it answers late and keeps nothing borrowed.
pub struct SawLate<C>(pub String, PhantomData<fn() -> C>);
impl<C: RequestContext + Debug + 'static> Guard for SawLate<C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, c: &C) -> Self::Result {
        let s = format!("{:?}", c);
        let mut n = 2;
        Box::new(futures::future::poll_fn(move || {
            n -= 1;
            if n == 0 {
                return Ok(futures::Async::Ready(()));
            }
            futures::task::current().notify();
            Ok(futures::Async::NotReady)
        }).map(move |()| SawLate(s, PhantomData)))
    }
}
pub struct BodySaw<C>(pub String, PhantomData<fn() -> C>);
impl<C: RequestContext + Debug + 'static> FromBody for BodySaw<C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, b: hyper::Body, c: &C) -> Self::Result {
        let s = format!("{:?}", c);
        Box::new(b.concat2().map_err(|e| e.into()).map(move |_| BodySaw(s, PhantomData)))
    }
}

/// Sees the derived type's own context like any user would.
pub fn wait<F: Future<Error = BoxedError>>(f: F) -> Result<F::Item, String> {
    f.wait().map_err(|e| e.to_string())
}

pub fn req(method: &str, path: &str) -> http::Request<hyper::Body> {
    let mut r = http::Request::new(hyper::Body::from("x"));
    *r.method_mut() = http::Method::from_bytes(method.as_bytes()).unwrap();
    *r.uri_mut() = path.parse().unwrap();
    r
}

pub fn nocontext(_: &NoContext) {}

#[derive(Default)]
pub struct Rep {
    pub runs: usize,
    pub events: usize,
    pub distinct: BTreeSet<String>,
    pub classes: BTreeMap<String, usize>,
    pub counters: BTreeMap<String, usize>,
    pub bad: Vec<serde_json::Value>,
    pub samples: Vec<serde_json::Value>,
}

impl Rep {
    pub fn value(&mut self, shape: &str, show: String) {
        self.runs += 1;
        self.distinct.insert(shape.to_string());
        *self.classes.entry(shape.split(':').next().unwrap().to_string()).or_insert(0) += 1;
        if self.samples.len() < 2 {
            self.samples.push(serde_json::json!({"shape": shape, "value": show}));
        }
    }
    fn count(&mut self, k: &str) {
        self.events += 1;
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, case: u32, what: String) {
        if self.bad.len() < 40 {
            self.bad.push(serde_json::json!({"blame": ["C19"], "what": what, "case": case}));
        }
    }
    /// The projection must exist and be this very place.
    pub fn place<U>(&mut self, case: u32, ty: &str, got: Option<&U>, want: &U) {
        self.count("places compared");
        match got {
            None => self.fail(case, format!("the context has no AsRef<{}>", ty)),
            Some(g) if g as *const U != want as *const U => self.fail(case, format!("AsRef<{}> is another place than the marked field", ty)),
            _ => (),
        }
    }
    pub fn is(&mut self, case: u32, what: &str, got: bool, want: bool) {
        self.count(if want { "impls expected" } else { "impls ruled out" });
        if got != want {
            self.fail(case, format!("{}: {}, expected {}", what, got, want));
        }
    }
    pub fn saw(&mut self, case: u32, what: &str, got: Result<Vec<String>, String>, want: Vec<String>) {
        self.count("decodes with guards");
        if got.as_ref() != Ok(&want) {
            self.fail(case, format!("{}: guards and body decoder saw {:?}, expected {:?}", what, got, want));
        }
    }
    pub fn write(self) {
        let a: Vec<String> = std::env::args().collect();
        let out = a.iter().position(|x| x == "--out").map(|i| a[i + 1].clone());
        let j = serde_json::json!({
            "runs": self.runs, "events": self.events, "distinct": self.distinct, "classes": self.classes,
            "counters": self.counters, "samples": self.samples, "mismatches": self.bad, "cmd": a,
        });
        match out {
            Some(p) => std::fs::write(p, j.to_string()).unwrap(),
            None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
        }
    }
}
