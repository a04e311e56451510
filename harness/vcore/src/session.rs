//! Per-request plan and event log shared by all instrumented parts of one decode.

use futures::task::{self, Task};
use futures::{Async, Poll, Stream};
use hyperdrive::BoxedError;
use std::any::Any;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wake {
    /// notify the own task right away
    Own,
    /// leave the task to be woken from outside
    External,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    /// `PlanErr` with this code
    Err(u64),
    /// `hyperdrive::Error` with status
    Hyper(u16),
    /// `hyperdrive::Error` with status and source
    HyperSrc(u16, String),
    /// `hyperdrive::Error::wrong_method`
    Wrong(Vec<&'static str>),
    /// panics when polled / evaluated
    Panic(u64),
    /// panics when called (before a future exists)
    PanicCall(u64),
}

pub fn method_ref(m: &str) -> &'static http::Method {
    use http::Method as M;
    const ALL: &[M] = &[
        M::GET,
        M::HEAD,
        M::POST,
        M::PUT,
        M::DELETE,
        M::CONNECT,
        M::OPTIONS,
        M::TRACE,
        M::PATCH,
    ];
    ALL.iter().find(|x| x.as_str() == m).expect("standard method")
}

/// An error of the application's own; its source may well be one of hyperdrive's, or end in one.
#[derive(Debug)]
pub struct PlanErr(pub u64, Option<Box<dyn std::error::Error + Send + Sync>>);
impl PlanErr {
    pub fn new(code: u64) -> Self {
        use hyperdrive::Error;
        let e = || match code % 5 {
            0 => Error::wrong_method(vec![method_ref("PUT"), method_ref("GET")]),
            1 => Error::from_status(http::StatusCode::NOT_FOUND),
            2 => Error::from_status(http::StatusCode::UNAUTHORIZED),
            3 => Error::from_status(http::StatusCode::IM_A_TEAPOT),
            _ => Error::with_source(http::StatusCode::BAD_REQUEST, "innermost".to_string()),
        };
        PlanErr(code, match code % 7 {
            0 | 1 => Some(Box::new(e())),
            2 => Some(Box::new(PlanErr(code + 1, Some(Box::new(e()))))),
            3 => Some("some source".into()),
            _ => None,
        })
    }
}
impl fmt::Display for PlanErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "planned error {}", self.0)
    }
}
impl std::error::Error for PlanErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| &**e as &(dyn std::error::Error + 'static))
    }
}

/// What error types an application may fail with besides its own.
const IO_KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::ConnectionRefused,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::ConnectionAborted,
    std::io::ErrorKind::NotConnected,
    std::io::ErrorKind::AddrInUse,
    std::io::ErrorKind::AddrNotAvailable,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::AlreadyExists,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::Interrupted,
    std::io::ErrorKind::Unsupported,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::OutOfMemory,
    std::io::ErrorKind::Other,
];

/// The code that is observed of `planned_err(code)`.
pub fn observed_code(code: u64) -> u64 {
    match code % 24 {
        11 => (code / 24 % IO_KINDS.len() as u64) * 24 + 11,
        12..=19 => code % 24,
        _ => code,
    }
}

/// An error of the application, of a type that depends on `code`.
pub fn planned_err(code: u64) -> BoxedError {
    use serde::de::Error as _;
    let text = || format!("planned error {}", code);
    let kind = IO_KINDS[(code / 24 % IO_KINDS.len() as u64) as usize];
    match code % 24 {
        10 => std::io::Error::new(kind, PlanErr::new(code)).into(),
        11 => std::io::Error::from(kind).into(),
        12 => futures::Canceled.into(),
        13 => tokio::timer::Error::shutdown().into(),
        14 => fmt::Error.into(),
        15 => "x".parse::<u8>().unwrap_err().into(),
        16 => String::from_utf8(vec![0xff]).unwrap_err().into(),
        17 => "%%".parse::<http::Uri>().unwrap_err().into(),
        18 => http::Error::from(http::StatusCode::from_u16(0).unwrap_err()).into(),
        19 => "x".parse::<std::net::IpAddr>().unwrap_err().into(),
        20 => text().into(),
        21 => serde_json::Error::custom(text()).into(),
        22 => serde::de::value::Error::custom(text()).into(),
        23 => Box::new(Box::new(PlanErr::new(code))),
        _ => Box::new(PlanErr::new(code)),
    }
}

/// The `observed_code` of an error that is one of `planned_err`.
pub fn planned_code(e: &BoxedError) -> Option<u64> {
    if let Some(p) = e.downcast_ref::<PlanErr>() {
        return Some(p.0);
    }
    if let Some(p) = e.downcast_ref::<Box<PlanErr>>() {
        return Some(p.0);
    }
    if let Some(io) = e.downcast_ref::<std::io::Error>() {
        let k = IO_KINDS.iter().position(|k| *k == io.kind())? as u64;
        return match io.get_ref() {
            None => Some(k * 24 + 11),
            Some(p) => p.downcast_ref::<PlanErr>().map(|p| p.0).filter(|c| c / 24 % IO_KINDS.len() as u64 == k),
        };
    }
    let text = e.to_string();
    macro_rules! bare {
        ($($code:literal $ty:ty;)*) => {
            $(
                if e.is::<$ty>() {
                    return Some($code).filter(|c| planned_err(*c).to_string() == text);
                }
            )*
        };
    }
    bare! {
        12 futures::Canceled;
        13 tokio::timer::Error;
        14 fmt::Error;
        15 std::num::ParseIntError;
        16 std::string::FromUtf8Error;
        17 http::uri::InvalidUri;
        18 http::Error;
        19 std::net::AddrParseError;
    }
    let code: u64 = text.strip_prefix("planned error ")?.parse().ok()?;
    let ty = if e.is::<serde_json::Error>() {
        21
    } else if e.is::<serde::de::value::Error>() {
        22
    } else {
        20
    };
    Some(code).filter(|c| c % 24 == ty)
}

/// The source of a planned hyperdrive error, which may have one of hyperdrive's as its own source.
#[derive(Debug)]
pub struct SrcErr(String, Option<hyperdrive::Error>);
impl fmt::Display for SrcErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SrcErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| e as &(dyn std::error::Error + 'static))
    }
}

/// Payload of planned panics.
#[derive(Debug, Clone, PartialEq)]
pub struct PlanPanic(pub u64);

fn raise<T: Any + Send>(quiet: bool, payload: T) -> ! {
    if quiet {
        // without a call of the panic hook
        std::panic::resume_unwind(Box::new(payload))
    }
    std::panic::panic_any(payload)
}

/// Panics with a payload that depends on `code` in type and value.
pub fn do_panic(code: u64) -> ! {
    let text = format!("plan {}", code);
    let q = code / 20 % 3 == 0;
    match code % 20 {
        0..=3 => raise(q, PlanPanic(code)),
        // as by `panic!("plan {}", code)`
        4..=7 => raise(q, text),
        8..=10 => {
            let s: &'static str = Box::leak(text.into_boxed_str());
            raise(q, s)
        }
        11 => raise(q, hyperdrive::Error::with_source(http::StatusCode::NOT_FOUND, text)),
        12 => raise(q, Box::new(text) as Box<dyn Any + Send>),
        13 => raise(q, BoxedError::from(text)),
        14 => raise(q, http::Response::builder().status(200).header("x-plan", text).body(hyper::Body::from("body")).unwrap()),
        15 => raise(q, std::io::Error::new(std::io::ErrorKind::Other, text)),
        16 => raise(q, code),
        17 => raise(q, Cow::<'static, str>::from(text)),
        18 => raise(q, PlanErr::new(code)),
        _ => raise(q, Result::<(), BoxedError>::Err(hyperdrive::Error::with_source(http::StatusCode::CONFLICT, text).into())),
    }
}

/// The type of the payload of `do_panic(code)`, as `payload` reports it.
pub fn payload_type(code: u64) -> &'static str {
    match code % 20 {
        0..=3 => "PlanPanic",
        4..=7 => "String",
        8..=10 => "str",
        11 => "hyperdrive::Error",
        12 => "Box<dyn Any>",
        13 => "BoxedError",
        14 => "Response",
        15 => "io::Error",
        16 => "u64",
        17 => "Cow",
        18 => "PlanErr",
        _ => "Result",
    }
}

/// Type and text of a panic's payload.
pub fn payload(p: &(dyn Any + Send)) -> (&'static str, String) {
    if let Some(p) = p.downcast_ref::<PlanPanic>() {
        ("PlanPanic", format!("plan {}", p.0))
    } else if let Some(s) = p.downcast_ref::<String>() {
        ("String", s.clone())
    } else if let Some(s) = p.downcast_ref::<&str>() {
        ("str", s.to_string())
    } else if let Some(e) = p.downcast_ref::<hyperdrive::Error>() {
        ("hyperdrive::Error", std::error::Error::source(e).map_or("no source".into(), |s| s.to_string()))
    } else if let Some(b) = p.downcast_ref::<Box<dyn Any + Send>>() {
        ("Box<dyn Any>", b.downcast_ref::<String>().cloned().unwrap_or_default())
    } else if let Some(e) = p.downcast_ref::<BoxedError>() {
        ("BoxedError", e.to_string())
    } else if let Some(r) = p.downcast_ref::<http::Response<hyper::Body>>() {
        ("Response", r.headers().get("x-plan").map_or("no header".into(), |v| v.to_str().unwrap_or("?").to_string()))
    } else if let Some(e) = p.downcast_ref::<std::io::Error>() {
        ("io::Error", e.to_string())
    } else if let Some(n) = p.downcast_ref::<u64>() {
        ("u64", format!("plan {}", n))
    } else if let Some(s) = p.downcast_ref::<Cow<'static, str>>() {
        ("Cow", s.to_string())
    } else if let Some(e) = p.downcast_ref::<PlanErr>() {
        ("PlanErr", format!("plan {}", e.0))
    } else if let Some(Err(e)) = p.downcast_ref::<Result<(), BoxedError>>() {
        ("Result", e.source().map_or("no source".into(), |s| s.to_string()))
    } else {
        ("unknown", "unknown payload".into())
    }
}

/// What a request handler does.
#[derive(Clone, Debug)]
pub struct HPlan {
    pub pends: Vec<Wake>,
    pub out: Out,
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub version: http::Version,
    pub ext: Option<u64>,
    /// `None`: `Body::empty()`; `Some(Err(_))`: from bytes; `Some(Ok(_))`: stream
    pub body: Option<Result<Vec<Item>, Vec<u8>>>,
    /// sync handlers: yield the thread this often
    pub yields: usize,
}
impl Default for HPlan {
    fn default() -> Self {
        HPlan {
            pends: vec![],
            out: Out::Ok,
            status: 200,
            headers: vec![],
            version: http::Version::HTTP_11,
            ext: None,
            body: None,
            yields: 0,
        }
    }
}

/// What a panic handler returns.
#[derive(Clone, Debug, Default)]
pub struct PPlan {
    /// 0: response 500, 1: plain error, 2: response after pending, 3: hyperdrive error
    pub kind: u8,
}

/// Extension of planned responses.
#[derive(Clone, Debug, PartialEq)]
pub struct RespExt(pub u64);

impl Out {
    pub fn eval_call(&self) {
        if let Out::PanicCall(c) = self {
            do_panic(*c);
        }
    }
    pub fn eval(&self) -> Result<(), BoxedError> {
        use hyperdrive::Error;
        let st = |s: &u16| http::StatusCode::from_u16(*s).unwrap();
        match self {
            Out::Ok => Ok(()),
            Out::Err(c) => Err(planned_err(*c)),
            Out::Hyper(s) => Err(Error::from_status(st(s)).into()),
            Out::HyperSrc(s, src) => Err(match src.bytes().last() {
                Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') => Error::with_source(st(s), src.clone()),
                Some(b'4') | Some(b'5') => Error::with_source(st(s), SrcErr(src.clone(), None)),
                Some(b'6') | Some(b'7') => {
                    Error::with_source(st(s), SrcErr(src.clone(), Some(Error::wrong_method(vec![method_ref("PUT")]))))
                }
                _ => {
                    let inner = Error::with_source(http::StatusCode::NOT_IMPLEMENTED, "x".to_string());
                    Error::with_source(st(s), SrcErr(src.clone(), Some(inner)))
                }
            }
            .into()),
            Out::Wrong(ms) => {
                Err(Error::wrong_method(ms.iter().map(|m| method_ref(m)).collect::<Vec<_>>()).into())
            }
            Out::Panic(c) | Out::PanicCall(c) => do_panic(*c),
        }
    }
}

#[derive(Clone, Debug)]
pub struct StepPlan {
    pub pends: Vec<Wake>,
    pub out: Out,
    /// body decoders and probes: whether to read the body
    pub read: bool,
}
impl Default for StepPlan {
    fn default() -> Self {
        StepPlan {
            pends: vec![],
            out: Out::Ok,
            read: true,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub guards: Vec<StepPlan>,
    pub body: StepPlan,
    pub probes: Vec<StepPlan>,
    pub handler: HPlan,
    pub panic: PPlan,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// decoded value, request
    Handler(String, String),
    /// payload type and text
    PanicHandler(String, String),
    /// serial, kind, id, context view
    GuardStart(usize, &'static str, u32, String),
    GuardEnd(usize),
    BodyStart(&'static str, String),
    BodyEnd,
    ProbeStart(usize, String),
    ProbeEnd(usize),
    StreamPoll,
    StreamDrop,
}

#[derive(Default)]
struct State {
    events: Vec<Ev>,
    guards: usize,
    probes: usize,
    wakes: VecDeque<Task>,
    late: Vec<String>,
}

pub struct Session {
    pub id: u64,
    pub plan: Plan,
    st: Mutex<State>,
    closed: AtomicBool,
    pub stream_polls: AtomicUsize,
    pub stream_dropped: AtomicBool,
    pub touches: AtomicU64,
    pub resp_polls: AtomicUsize,
    /// the service's future is complete
    pub answered: AtomicBool,
    pub resp_live: AtomicUsize,
}

#[derive(Clone)]
pub struct SessRef(pub Arc<Session>);

thread_local! {
    static CURRENT: RefCell<Option<Arc<Session>>> = RefCell::new(None);
}

/// Sessions of requests sent over connections, by the value of their `x-sess` header.
pub static SENT: Mutex<BTreeMap<u64, Arc<Session>>> = Mutex::new(BTreeMap::new());

pub fn sent<B>(r: &http::Request<B>) -> Option<Arc<Session>> {
    let id = r.headers().get("x-sess")?.to_str().ok()?.parse::<u64>().ok()?;
    SENT.lock().unwrap_or_else(|e| e.into_inner()).get(&id).cloned()
}

/// Makes `s` the session of code that can't see the request, while it lives.
pub struct Enter(Option<Arc<Session>>);
impl Enter {
    pub fn new(s: &Arc<Session>) -> Enter {
        Enter(CURRENT.with(|c| c.borrow_mut().replace(s.clone())))
    }
}
impl Drop for Enter {
    fn drop(&mut self) {
        CURRENT.with(|c| *c.borrow_mut() = self.0.take());
    }
}

impl Session {
    pub fn new(id: u64, plan: Plan) -> Arc<Session> {
        Arc::new(Session {
            id,
            plan,
            st: Mutex::new(State::default()),
            closed: AtomicBool::new(false),
            stream_polls: AtomicUsize::new(0),
            stream_dropped: AtomicBool::new(false),
            touches: AtomicU64::new(0),
            resp_polls: AtomicUsize::new(0),
            answered: AtomicBool::new(false),
            resp_live: AtomicUsize::new(0),
        })
    }

    pub fn of<B>(r: &http::Request<B>) -> Arc<Session> {
        match r.extensions().get::<SessRef>() {
            Some(s) => s.0.clone(),
            None => sent(r).or_else(Session::current)
                .unwrap_or_else(|| Session::new(0, Plan::default())),
        }
    }

    pub fn current() -> Option<Arc<Session>> {
        CURRENT.with(|c| c.borrow().clone())
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn log(&self, e: Ev) {
        let mut st = self.lock();
        if self.closed.load(Ordering::SeqCst) && e != Ev::StreamDrop {
            st.late.push(format!("{:?}", e));
        }
        st.events.push(e);
    }

    /// Called whenever an instrumented future is polled.
    pub fn touch(&self) {
        self.touches.fetch_add(1, Ordering::SeqCst);
        if self.closed.load(Ordering::SeqCst) {
            self.lock().late.push("polled".into());
        }
    }

    pub fn start_guard(&self, kind: &'static str, id: u32, ctx: &str) -> usize {
        let serial = {
            let mut st = self.lock();
            st.guards += 1;
            st.guards - 1
        };
        self.log(Ev::GuardStart(serial, kind, id, ctx.to_string()));
        serial
    }
    pub fn guard_plan(&self, serial: usize) -> StepPlan {
        self.plan.guards.get(serial).cloned().unwrap_or_default()
    }
    pub fn start_body(&self, kind: &'static str, ctx: &str) -> (usize, StepPlan) {
        self.log(Ev::BodyStart(kind, ctx.to_string()));
        (0, self.plan.body.clone())
    }
    pub fn start_probe(&self, ctx: &str) -> (usize, StepPlan) {
        let n = {
            let mut st = self.lock();
            st.probes += 1;
            st.probes - 1
        };
        self.log(Ev::ProbeStart(n, ctx.to_string()));
        (n, self.plan.probes.get(n).cloned().unwrap_or_default())
    }

    pub fn push_wake(&self) {
        let t = task::current();
        self.lock().wakes.push_back(t);
    }
    /// Wakes the next externally woken task.
    pub fn fire(&self) -> bool {
        let t = self.lock().wakes.pop_front();
        match t {
            Some(t) => {
                t.notify();
                true
            }
            None => false,
        }
    }
    pub fn clear_wakes(&self) {
        self.lock().wakes.clear();
    }

    /// From now on, nothing may be started or polled.
    pub fn close(&self) {
        self.closed.store(true, Ordering::SeqCst);
    }
    pub fn late(&self) -> Vec<String> {
        self.lock().late.clone()
    }
    pub fn events(&self) -> Vec<Ev> {
        self.lock().events.clone()
    }
}

/// Makes a future pend as planned.
pub struct Pends {
    s: Option<Arc<Session>>,
    left: VecDeque<Wake>,
}
impl Pends {
    pub fn none() -> Pends {
        Pends {
            s: None,
            left: VecDeque::new(),
        }
    }
    pub fn new(s: &Arc<Session>, p: Vec<Wake>) -> Pends {
        Pends {
            s: Some(s.clone()),
            left: p.into(),
        }
    }
    pub fn pending(&mut self) -> bool {
        match self.left.pop_front() {
            None => false,
            Some(Wake::Own) => {
                task::current().notify();
                true
            }
            Some(Wake::External) => {
                self.s.as_ref().unwrap().push_wake();
                true
            }
        }
    }
}

#[derive(Debug)]
pub struct StreamErr(pub u64);
impl fmt::Display for StreamErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "stream error {}", self.0)
    }
}
impl std::error::Error for StreamErr {}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Chunk(Vec<u8>),
    Pend(Wake),
    Err(u64),
    /// never completes
    Hang,
    Panic(u64),
}

/// Body stream following a script, logging polls and its destruction.
pub struct ScriptStream {
    pub s: Arc<Session>,
    pub items: VecDeque<Item>,
}
impl Stream for ScriptStream {
    type Item = Vec<u8>;
    type Error = StreamErr;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, StreamErr> {
        self.s.stream_polls.fetch_add(1, Ordering::SeqCst);
        self.s.log(Ev::StreamPoll);
        match self.items.pop_front() {
            None => Ok(Async::Ready(None)),
            Some(Item::Chunk(c)) => Ok(Async::Ready(Some(c))),
            Some(Item::Pend(Wake::Own)) => {
                task::current().notify();
                Ok(Async::NotReady)
            }
            Some(Item::Pend(Wake::External)) => {
                self.s.push_wake();
                Ok(Async::NotReady)
            }
            Some(Item::Err(c)) => Err(StreamErr(c)),
            Some(Item::Hang) => {
                self.items.push_front(Item::Hang);
                Ok(Async::NotReady)
            }
            Some(Item::Panic(c)) => do_panic(c),
        }
    }
}
impl Drop for ScriptStream {
    fn drop(&mut self) {
        self.s.stream_dropped.store(true, Ordering::SeqCst);
        self.s.log(Ev::StreamDrop);
    }
}

/// Body of a planned response.
pub struct RespStream {
    s: Arc<Session>,
    items: VecDeque<Item>,
}
impl RespStream {
    pub fn new(s: &Arc<Session>, items: &[Item]) -> RespStream {
        s.resp_live.fetch_add(1, Ordering::SeqCst);
        RespStream {
            s: s.clone(),
            items: items.iter().cloned().collect(),
        }
    }
}
impl Stream for RespStream {
    type Item = Vec<u8>;
    type Error = StreamErr;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, StreamErr> {
        self.s.resp_polls.fetch_add(1, Ordering::SeqCst);
        match self.items.pop_front() {
            None => Ok(Async::Ready(None)),
            Some(Item::Chunk(c)) => Ok(Async::Ready(Some(c))),
            Some(Item::Pend(Wake::Own)) => {
                task::current().notify();
                Ok(Async::NotReady)
            }
            Some(Item::Pend(Wake::External)) => {
                self.s.push_wake();
                Ok(Async::NotReady)
            }
            Some(Item::Err(c)) => Err(StreamErr(c)),
            Some(Item::Hang) => {
                self.items.push_front(Item::Hang);
                Ok(Async::NotReady)
            }
            Some(Item::Panic(c)) => do_panic(c),
        }
    }
}
impl Drop for RespStream {
    fn drop(&mut self) {
        self.s.resp_live.fetch_sub(1, Ordering::SeqCst);
    }
}
