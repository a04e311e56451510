//! Real hyper servers on loopback, driven by a hand-written HTTP/1 client.

use crate::exec::*;
use crate::model::*;
use crate::reqgen::*;
use crate::run::*;
use crate::session::*;
use crate::svc::*;
use crate::types::*;
use futures::{Future, Poll, Stream};
use hyper::service::{make_service_fn, Service};
use hyper::{Body, Response};
use hyperdrive::BoxedError;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vspec::rng::Rng;
use vspec::spec::CaseSpec;

/// Limit for anything the server must do; far beyond what it ever needs.
const WAIT: Duration = Duration::from_secs(40);

/// Makes the session named by the request current around the wrapped service.
struct Front {
    svc: Box<dyn AnySvc>,
    conn: usize,
}
struct FrontFut {
    s: Option<Arc<Session>>,
    f: Option<RespFut>,
}
impl Service for Front {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = FrontFut;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.svc.ready()
    }
    fn call(&mut self, req: http::Request<Body>) -> FrontFut {
        let s = sent(&req);
        let _g = s.as_ref().map(Enter::new);
        let _ = self.conn;
        let f = self.svc.go(req);
        FrontFut { s, f: Some(f) }
    }
}
impl Future for FrontFut {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        let _g = self.s.as_ref().map(Enter::new);
        let r = self.f.as_mut().unwrap().poll();
        if let (Some(s), false) = (&self.s, r.as_ref().map(|a| a.is_not_ready()).unwrap_or(false)) {
            s.answered.store(true, Ordering::SeqCst);
        }
        r
    }
}
impl Drop for FrontFut {
    fn drop(&mut self) {
        let _g = self.s.as_ref().map(Enter::new);
        self.f = None;
    }
}

pub struct Server {
    pub addr: SocketAddr,
    stop: Option<futures::sync::oneshot::Sender<()>>,
}
impl Drop for Server {
    fn drop(&mut self) {
        if let Some(s) = self.stop.take() {
            let _ = s.send(());
        }
    }
}

pub fn serve(rt: &mut tokio::runtime::Runtime, mut svc: Box<dyn AnySvc>) -> Server {
    let (tx, rx) = futures::sync::oneshot::channel::<()>();
    let (atx, arx) = std::sync::mpsc::channel();
    rt.spawn(futures::future::lazy(move || {
        let n = AtomicUsize::new(0);
        let mk = make_service_fn(move |_: &hyper::server::conn::AddrStream| {
            let n = n.fetch_add(1, Ordering::SeqCst);
            Ok::<_, BoxedError>(Front { svc: svc.dup(n), conn: n })
        });
        let server = hyper::Server::bind(&"127.0.0.1:0".parse().unwrap())
            .tcp_nodelay(true)
            .serve(mk);
        let _ = atx.send(server.local_addr());
        server.with_graceful_shutdown(rx).map_err(|_| ())
    }));
    Server {
        addr: arx.recv().expect("server did not start"),
        stop: Some(tx),
    }
}

// ---------------------------------------------------------------- client

pub struct Client {
    s: TcpStream,
    buf: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ReadErr {
    /// closed (possibly in the middle of a response)
    Closed(bool),
    Reset,
    Timeout,
    Bad(String),
}

#[derive(Debug, Clone)]
pub struct WireResp {
    pub status: u16,
    pub headers: BTreeMap<String, Vec<String>>,
    pub body: Vec<u8>,
    pub close: bool,
}

impl Client {
    pub fn connect(a: SocketAddr) -> std::io::Result<Client> {
        let s = TcpStream::connect(a)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(WAIT))?;
        s.set_write_timeout(Some(WAIT))?;
        Ok(Client { s, buf: vec![] })
    }
    pub fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.s.write_all(b)
    }
    pub fn half_close(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    fn fill(&mut self) -> Result<(), ReadErr> {
        let mut t = [0u8; 16384];
        loop {
            return match self.s.read(&mut t) {
                Ok(0) => Err(ReadErr::Closed(!self.buf.is_empty())),
                Ok(n) => {
                    self.buf.extend_from_slice(&t[..n]);
                    Ok(())
                }
                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(ref e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => Err(ReadErr::Timeout),
                Err(_) => Err(ReadErr::Reset),
            };
        }
    }
    fn line(&mut self) -> Result<String, ReadErr> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: String = self.buf[..i].iter().map(|b| *b as char).collect();
                self.buf.drain(..i + 2);
                return Ok(l);
            }
            self.fill()?;
        }
    }
    fn take(&mut self, n: usize) -> Result<Vec<u8>, ReadErr> {
        while self.buf.len() < n {
            self.fill()?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn response(&mut self, head: bool) -> Result<WireResp, ReadErr> {
        loop {
            let l = self.line()?;
            let mut p = l.splitn(3, ' ');
            let v = p.next().unwrap_or("");
            let status: u16 = match p.next().and_then(|s| s.parse().ok()) {
                Some(s) if v == "HTTP/1.1" || v == "HTTP/1.0" => s,
                _ => return Err(ReadErr::Bad(format!("status line {:?}", l))),
            };
            let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
            loop {
                let l = self.line()?;
                if l.is_empty() {
                    break;
                }
                let i = match l.find(':') {
                    Some(i) => i,
                    None => return Err(ReadErr::Bad(format!("header line {:?}", l))),
                };
                let val: Vec<u8> = l[i + 1..].trim_matches(' ').chars().map(|c| c as u8).collect();
                headers
                    .entry(l[..i].to_ascii_lowercase())
                    .or_default()
                    .push(crate::show(&val));
            }
            if status / 100 == 1 {
                continue;
            }
            let conn = headers.get("connection").cloned().unwrap_or_default();
            let mut close = conn.iter().any(|c| c.eq_ignore_ascii_case("close"))
                || (v == "HTTP/1.0" && !conn.iter().any(|c| c.eq_ignore_ascii_case("keep-alive")));
            let mut body = vec![];
            if head || status == 204 || status == 304 {
            } else if headers.contains_key("transfer-encoding") {
                loop {
                    let l = self.line()?;
                    let n = match usize::from_str_radix(l.split(';').next().unwrap().trim(), 16) {
                        Ok(n) => n,
                        Err(_) => return Err(ReadErr::Bad(format!("chunk size {:?}", l))),
                    };
                    if n == 0 {
                        while !self.line()?.is_empty() {}
                        break;
                    }
                    body.extend(self.take(n)?);
                    let crlf = self.take(2)?;
                    if crlf != b"\r\n" {
                        return Err(ReadErr::Bad("chunk end".into()));
                    }
                }
            } else if let Some(l) = headers.get("content-length") {
                match l[0].parse::<usize>() {
                    Ok(n) => body = self.take(n)?,
                    Err(_) => return Err(ReadErr::Bad(format!("content-length {:?}", l))),
                }
            } else {
                close = true;
                loop {
                    match self.fill() {
                        Ok(()) => {}
                        Err(ReadErr::Closed(_)) => break,
                        Err(e) => return Err(e),
                    }
                }
                body = std::mem::replace(&mut self.buf, vec![]);
            }
            return Ok(WireResp {
                status,
                headers,
                body,
                close,
            });
        }
    }
    /// Reads until the connection is closed.
    pub fn drain(&mut self) -> Result<usize, ReadErr> {
        loop {
            match self.fill() {
                Ok(()) => {}
                Err(ReadErr::Closed(_)) | Err(ReadErr::Reset) => return Ok(self.buf.len()),
                Err(e) => return Err(e),
            }
        }
    }
}

/// Bytes of a request plus the offsets at which its pieces may be split.
pub fn wire(rng: &mut Rng, r: &Req, bytes: &[u8]) -> Vec<u8> {
    let v = if r.version == http::Version::HTTP_10 { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut o = format!("{} {} {}\r\n", r.method, r.target, v).into_bytes();
    for (n, val) in &r.headers {
        if rng.pct(30) {
            o.extend_from_slice(n.to_ascii_uppercase().as_bytes());
        } else {
            o.extend_from_slice(n.as_bytes());
        }
        o.extend_from_slice(if rng.pct(80) { b": " } else { b":" });
        o.extend_from_slice(val);
        o.extend_from_slice(b"\r\n");
    }
    o.extend_from_slice(b"\r\n");
    if r.headers.iter().any(|(n, _)| n == "transfer-encoding") {
        let mut rest = bytes;
        while !rest.is_empty() {
            let n = rng.range(1, rest.len().min(200));
            let ext = if rng.pct(10) { ";x=1" } else { "" };
            o.extend_from_slice(format!("{:x}{}\r\n", n, ext).as_bytes());
            o.extend_from_slice(&rest[..n]);
            o.extend_from_slice(b"\r\n");
            rest = &rest[n..];
        }
        o.extend_from_slice(b"0\r\n\r\n");
    } else {
        o.extend_from_slice(bytes);
    }
    o
}

struct Sendable {
    call: Call,
    session: Arc<Session>,
    wire: Vec<u8>,
    has_body: bool,
    close: bool,
}

static IDS: AtomicUsize = AtomicUsize::new(1);

/// A request that can be sent over HTTP/1, with its expectation.
fn sendable(rng: &mut Rng, case: &CaseSpec, ti: usize, o: &Opts, nonce: u64, sync: bool, caught: bool, h2: Option<SocketAddr>) -> Option<Sendable> {
    for _ in 0..8 {
        let mut ro = o.ro;
        ro.stream_err = 0;
        ro.hang = 0;
        if h2.is_some() {
            // h2 0.1 has limits of its own
            ro.hostile = 0;
        }
        if !caught {
            ro.panic = 0;
        }
        let mut r = gen_req(rng, case, ti, &ro);
        if r.method == "CONNECT" || r.target.is_empty() {
            continue;
        }
        if !(r.target.starts_with('/') || r.target.starts_with("http://") || r.target == "*") {
            continue;
        }
        let bytes: Vec<u8> = r
            .body
            .read()
            .0
            .concat();
        r.body = BodyKind::Full(bytes.clone());
        r.nonce = nonce;
        r.version = if rng.pct(90) { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
        if let Some(a) = h2 {
            if !r.target.starts_with('/') || r.target.len() > 7000 {
                continue;
            }
            r.version = http::Version::HTTP_2;
            r.target = format!("http://{}{}", a, r.target);
        }
        let id = IDS.fetch_add(1, Ordering::SeqCst) as u64;
        r.headers.retain(|(n, _)| match n.as_str() {
            "content-length" | "transfer-encoding" | "connection" | "host" | "upgrade" => false,
            // connection-specific fields don't exist in HTTP/2
            "keep-alive" | "proxy-connection" | "proxy-authenticate" | "proxy-authorization" | "te" | "trailer" => h2.is_none(),
            _ => true,
        });
        if r.version != http::Version::HTTP_11 || bytes.is_empty() {
            // hyper closes the connection if this header comes without a body
            r.headers.retain(|(n, _)| n != "expect");
        }
        if h2.is_none() {
            r.headers.push(("host".into(), b"localhost".to_vec()));
        }
        // hyper answers 431 to more than 100
        r.headers.truncate(80);
        for h in r.headers.iter_mut() {
            // surrounding whitespace is not part of a value on the wire
            let blank = |b: &u8| *b == b' ' || *b == b'\t';
            while h.1.last().map_or(false, blank) {
                h.1.pop();
            }
            while h.1.first().map_or(false, blank) {
                h.1.remove(0);
            }
        }
        r.headers.push(("x-sess".into(), id.to_string().into_bytes()));
        if r.version == http::Version::HTTP_10 && rng.pct(50) {
            r.headers.push(("connection".into(), b"keep-alive".to_vec()));
        } else if h2.is_none() && rng.pct(4) {
            r.headers.push(("connection".into(), b"close".to_vec()));
        }
        let framing = if bytes.is_empty() { rng.weighted(&[6, 1, 1]) } else { rng.range(1, 2) };
        match framing {
            0 if h2.is_none() => {}
            2 if r.version == http::Version::HTTP_11 => r.headers.push(("transfer-encoding".into(), b"chunked".to_vec())),
            _ => r.headers.push(("content-length".into(), bytes.len().to_string().into_bytes())),
        }
        r.plan.handler.version = http::Version::HTTP_11;
        // what's between hyper and the other end of the connection
        r.plan.handler.headers.retain(|(n, _)| match n.as_str() {
            "content-length" | "transfer-encoding" | "connection" | "keep-alive" | "upgrade" | "trailer" | "te" | "date" => false,
            "proxy-connection" | "proxy-authenticate" | "proxy-authorization" => h2.is_none(),
            _ => true,
        });
        if let 100..=199 | 204 | 205 | 304 = r.plan.handler.status {
            // hyper has its own ideas about their bodies
            r.plan.handler.status = 200;
        }
        if h2.is_some() && r.method == "HEAD" {
            // the panic handler's response would have a body, which h2 refuses
            r.plan.panic.kind = 1;
        }
        r.plan.handler.ext = None;
        if let Some(Ok(items)) = &mut r.plan.handler.body {
            items.retain(|i| match i {
                Item::Err(_) | Item::Hang | Item::Panic(_) => false,
                _ => true,
            });
        }
        let mut b = match build_with(&r, id) {
            Some(b) => b,
            None => continue,
        };
        // the request arrives without our extension
        b.req.extensions_mut().remove::<SessRef>();
        b.fp = fingerprint(&b.req);
        let x = expect_for(case, ti, &r, &b);
        let (want, want_ev) = svc_expect(&x.res, &x.events, &r.method, &b.fp, &r.plan, sync, caught);
        let wire = wire(rng, &r, &bytes);
        let close = r.headers.iter().any(|(n, v)| n == "connection" && v == b"close")
            || (r.version == http::Version::HTTP_10 && !r.headers.iter().any(|(n, _)| n == "connection"));
        let has_body = !bytes.is_empty() || r.headers.iter().any(|(n, _)| n == "expect" || n == "transfer-encoding");
        return Some(Sendable {
            call: Call {
                fp: b.fp,
                req: r,
                x,
                want,
                want_ev,
                sync,
                caught,
            },
            session: b.session,
            wire,
            has_body,
            close,
        });
    }
    None
}

/// Expected and received response in comparable form.
fn wire_norm(want: &SvcRes) -> Option<(u16, BTreeMap<String, Vec<String>>, Vec<u8>)> {
    match want {
        SvcRes::Resp(o) => Some((o.status, hide(&o.headers), o.chunks.concat())),
        _ => None,
    }
}
fn hide(h: &BTreeMap<String, Vec<String>>) -> BTreeMap<String, Vec<String>> {
    let mut h = h.clone();
    for n in &["date", "content-length", "transfer-encoding", "connection"] {
        h.remove(*n);
    }
    if let Some(v) = h.get_mut("allow") {
        if v.len() == 1 {
            let mut s: Vec<String> = v[0].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            s.sort();
            s.dedup();
            *v = vec![s.join(", ")];
        }
    }
    h
}
fn as_res(w: &WireResp) -> SvcRes {
    SvcRes::Resp(RespObs {
        status: w.status,
        version: http::Version::HTTP_11,
        headers: hide(&w.headers),
        ext: None,
        hint: None,
        chunks: if w.body.is_empty() { vec![] } else { vec![w.body.clone()] },
        end: BodyEnd::Eof,
    })
}
/// hyper itself sends no body in response to HEAD.
fn as_wire(want: &SvcRes, head: bool) -> SvcRes {
    match wire_norm(want) {
        Some((status, headers, body)) => SvcRes::Resp(RespObs {
            status,
            version: http::Version::HTTP_11,
            headers,
            ext: None,
            hint: None,
            chunks: if body.is_empty() || head { vec![] } else { vec![body] },
            end: BodyEnd::Eof,
        }),
        None => want.clone(),
    }
}

/// `(call, session, outcome)`; no outcome means none could be expected.
type Obs = (Call, Arc<Session>, Option<SvcRes>);

/// Sends a series of requests over connections to `addr`, and any request that was lost with a
/// connection closed after an earlier request once more on its own connection.
fn client_run(
    rng: &mut Rng,
    addr: SocketAddr,
    n: usize,
    mut make: impl FnMut(&mut Rng) -> Option<Sendable>,
    counters: &mut BTreeMap<String, usize>,
) -> (Vec<Obs>, Option<String>) {
    let mut out: Vec<Obs> = vec![];
    let mut count = |k: &str| *counters.entry(k.to_string()).or_insert(0) += 1;
    let mut left = n;
    let mut again: Vec<Sendable> = vec![];
    while left > 0 || !again.is_empty() {
        let mut c = match Client::connect(addr) {
            Ok(c) => c,
            Err(e) => return (out, Some(format!("connect: {}", e))),
        };
        count("connections");
        let retry = !again.is_empty();
        let mut alive = true;
        // an earlier exchange on this connection allows the server to close it at any time
        let mut excuse = false;
        let mut history = String::new();
        while alive && (left > 0 || retry) {
            let mut batch = vec![];
            if retry {
                match again.pop() {
                    Some(s) if batch.is_empty() => batch.push(s),
                    _ => {}
                }
            } else {
                let k = if rng.pct(45) { rng.range(2, 4).min(left) } else { 1 };
                for _ in 0..k {
                    if let Some(s) = make(rng) {
                        SENT.lock().unwrap().insert(s.session.id, s.session.clone());
                        batch.push(s);
                    }
                }
                left -= k;
            }
            if batch.is_empty() {
                break;
            }
            if batch.len() > 1 {
                count("pipelined_batches");
            }
            let mut bytes = vec![];
            for s in &batch {
                bytes.extend_from_slice(&s.wire);
            }
            let abandon = !retry && rng.pct(5);
            if abandon {
                let cut = rng.below(bytes.len() + 1);
                bytes.truncate(cut);
            }
            let mut pos = 0;
            let pieces = if rng.pct(50) { 1 } else { rng.range(2, 6) };
            for p in 0..pieces {
                let end = if p + 1 == pieces { bytes.len() } else { rng.range(pos, bytes.len()) };
                if c.send(&bytes[pos..end]).is_err() {
                    break;
                }
                pos = end;
                if p + 1 < pieces && rng.pct(40) {
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
            if abandon {
                count("connections_abandoned");
                if rng.pct(50) {
                    std::thread::sleep(Duration::from_micros(200));
                }
                for s in batch {
                    out.push((s.call, s.session, None));
                }
                drop(c);
                break;
            }
            let total = batch.len();
            for s in batch {
                if !alive {
                    if s.session.events().is_empty() {
                        again.push(s);
                    } else {
                        count("handled_after_close");
                        out.push((s.call, s.session, None));
                    }
                    continue;
                }
                match c.response(s.call.req.method == "HEAD") {
                    Ok(w) => {
                        alive = !w.close && !s.close;
                        history.push_str(&format!("{} {} {:?} -> {} {:?}; ", s.call.req.method, s.call.req.target, s.call.req.version, w.status, w.headers));
                        // a body that was not read may make the server close the connection
                        excuse |= s.has_body;
                        count(if excuse { "responses_with_body" } else { "responses" });
                        out.push((s.call, s.session, Some(as_res(&w))));
                    }
                    Err(ReadErr::Timeout) => {
                        let what = format!("no response within {} s", WAIT.as_secs());
                        out.push((s.call, s.session, None));
                        return (out, Some(what));
                    }
                    Err(ReadErr::Bad(b)) => {
                        out.push((s.call, s.session, Some(SvcRes::Panic(format!("malformed response: {}", b)))));
                        alive = false;
                    }
                    Err(e) => {
                        alive = false;
                        let err_expected = if let SvcRes::Err(_) = s.call.want { true } else { false };
                        if excuse && s.session.events().is_empty() {
                            count("sent_again");
                            again.push(s);
                        } else if err_expected {
                            count("service_error_closed");
                            let w = s.call.want.clone();
                            out.push((s.call, s.session, Some(w)));
                        } else if (s.has_body || total > 1) && e != ReadErr::Closed(false) {
                            // closing a socket with unread data may destroy the response
                            count("response_lost_with_unread_body");
                            out.push((s.call, s.session, None));
                        } else {
                            out.push((s.call, s.session, Some(SvcRes::Err(ErrKind::Other(format!("{:?}, before on this connection: [{}]", e, history))))));
                        }
                    }
                }
            }
            if retry {
                break;
            }
        }
    }
    (out, None)
}

/// Sends requests over HTTP/2, many at a time on one connection.
fn h2_run(
    rt: &mut tokio::runtime::Runtime,
    rng: &mut Rng,
    addr: SocketAddr,
    n: usize,
    mut make: impl FnMut(&mut Rng) -> Option<Sendable>,
    counters: &mut BTreeMap<String, usize>,
) -> (Vec<Obs>, Option<String>) {
    let client = hyper::Client::builder().http2_only(true).build_http::<Body>();
    let (tx, rx) = std::sync::mpsc::channel();
    let mut open: BTreeMap<usize, (Call, Arc<Session>)> = BTreeMap::new();
    let mut out = vec![];
    let mut early = None;
    for k in 0..n {
        let s = match make(rng) {
            Some(s) => s,
            None => continue,
        };
        let mut b = match build_with(&s.call.req, s.session.id) {
            Some(b) => b,
            None => continue,
        };
        b.req.extensions_mut().remove::<SessRef>();
        SENT.lock().unwrap().insert(s.session.id, s.session.clone());
        let tx = tx.clone();
        let abandon = k > 0 && rng.pct(8);
        let fut = client.request(b.req).then(move |r| match r {
            Ok(r) => {
                let (p, b) = r.into_parts();
                futures::future::Either::A(b.concat2().then(move |b| Ok::<_, ()>(b.map(|b| (p, b)).map_err(|e| e.to_string()))))
            }
            Err(e) => futures::future::Either::B(futures::future::ok(Err(e.to_string()))),
        });
        if abandon {
            // gone after a moment
            let mut polls = rng.below(4);
            *counters.entry("h2_abandoned".into()).or_insert(0) += 1;
            out.push((s.call, s.session, None));
            rt.spawn(fut.map(|_| ()).select(futures::future::poll_fn(move || {
                if polls == 0 {
                    return Ok(futures::Async::Ready(()));
                }
                polls -= 1;
                futures::task::current().notify();
                Ok(futures::Async::NotReady)
            })).then(|_| Ok(())));
        } else {
            open.insert(k, (s.call, s.session));
            rt.spawn(fut.map(move |r| {
                let _ = tx.send((k, r));
            }));
            if k == 0 {
                // everything else shares the connection of the first request
                early = rx.recv_timeout(WAIT).ok();
            }
        }
    }
    drop(tx);
    while !open.is_empty() {
        let mut waited = 0;
        let next = loop {
            if let Some(x) = early.take() {
                break Some(x);
            }
            match rx.recv_timeout(Duration::from_secs(3)) {
                Ok(x) => break Some(x),
                Err(_) => {
                    waited += 3;
                    // h2 0.1 rarely loses a response that the service has returned
                    let lost = open.values().all(|x| x.1.answered.load(Ordering::SeqCst));
                    if lost || waited > WAIT.as_secs() {
                        if !lost {
                            let (c, s) = open.values().find(|x| !x.1.answered.load(Ordering::SeqCst)).cloned().unwrap();
                            out.push((c, s, None));
                            return (out, Some(format!("{} HTTP/2 requests were not answered", open.len())));
                        }
                        break None;
                    }
                }
            }
        };
        let (k, r) = match next {
            Some(x) => x,
            None => {
                *counters.entry("h2_lost_by_transport".into()).or_insert(0) += open.len();
                out.extend(open.into_iter().map(|(_, (c, s))| (c, s, None)));
                return (out, None);
            }
        };
        let (call, session) = open.remove(&k).unwrap();
        let got = match r {
            Ok((p, b)) => {
                let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for (n, v) in &p.headers {
                    headers.entry(n.as_str().to_string()).or_default().push(crate::show(v.as_bytes()));
                }
                let body = if call.req.method == "HEAD" { vec![] } else { b.to_vec() };
                *counters.entry("h2_responses".into()).or_insert(0) += 1;
                Some(as_res(&WireResp {
                    status: p.status.as_u16(),
                    headers,
                    body,
                    close: false,
                }))
            }
            Err(e) => match call.want {
                SvcRes::Err(_) => {
                    *counters.entry("h2_service_errors".into()).or_insert(0) += 1;
                    Some(call.want.clone())
                }
                // the service did answer: h2's business (a body that is not read ends with a reset)
                _ if session.answered.load(Ordering::SeqCst) => {
                    *counters.entry("h2_lost_by_transport".into()).or_insert(0) += 1;
                    None
                }
                _ => Some(SvcRes::Err(ErrKind::Other(e))),
            },
        };
        out.push((call, session, got));
    }
    (out, None)
}

/// Bytes that are hardly a request.
pub fn hostile(rng: &mut Rng, base: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    match rng.below(24) {
        0 => {
            let n = rng.below(b.len() + 1);
            b.truncate(n)
        }
        1 => {
            for _ in 0..rng.range(1, 8) {
                let i = rng.below(b.len());
                b[i] = rng.u64() as u8;
            }
        }
        2 => {
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(b.len());
                b.insert(i, *rng.pick(&[0u8, b'\r', b'\n', 0xff, b' ', b'\t', b'%', b'?', b'#', b':', 0x7f, 0x80]));
            }
        }
        3 => b = format!("GET /{} HTTP/1.1\r\nhost: x\r\n\r\n", "a".repeat(rng.range(1, 70_000))).into_bytes(),
        4 => b = format!("GET /?{} HTTP/1.1\r\nhost: x\r\n\r\n", "a=%25&".repeat(rng.range(1, 9_000))).into_bytes(),
        5 => {
            let mut s = "GET / HTTP/1.1\r\n".to_string();
            for i in 0..rng.range(1, 140) {
                s.push_str(&format!("h{}: {}\r\n", i, i));
            }
            s.push_str("\r\n");
            b = s.into_bytes();
        }
        6 => b = format!("POST / HTTP/1.1\r\nx: {}\r\n\r\n", "v".repeat(rng.range(1, 90_000))).into_bytes(),
        7 => b = b"POST / HTTP/1.1\r\ncontent-length: -1\r\n\r\nabc".to_vec(),
        8 => b = b"POST / HTTP/1.1\r\ncontent-length: 5\r\ncontent-length: 6\r\n\r\nabcdef".to_vec(),
        9 => b = b"POST / HTTP/1.1\r\ncontent-length: 99999999999999999999\r\n\r\nabc".to_vec(),
        10 => b = b"POST / HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n".to_vec(),
        11 => b = b"POST / HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\nffffffffffffffffff\r\nabc".to_vec(),
        12 => b = b"POST / HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n5\r\nab".to_vec(),
        13 => b = b"POST / HTTP/1.1\r\ncontent-length: 50\r\n\r\nshort".to_vec(),
        14 => b = b"CONNECT example.com:80 HTTP/1.1\r\n\r\n".to_vec(),
        15 => b = b"OPTIONS * HTTP/1.1\r\n\r\n".to_vec(),
        16 => b = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\0\0\0\x04\0\0\0\0\0garbage".to_vec(),
        17 => b = format!("GET {} HTTP/1.1\r\n\r\n", rng.pick(&["http://", "http://a", "a", "//", "http://a:b/", "?a", "#x", "/#frag", "/%", "/\\", "/\u{7f}"])).into_bytes(),
        18 => b = b"GET / HTTP/1.0\r\n\r\nGET / HTTP/1.0\r\n\r\n".to_vec(),
        19 => b = b"GET /\r\n\r\n".to_vec(),
        20 => b = b"\r\n\r\n\r\nGET / HTTP/1.1\r\n\r\n".to_vec(),
        21 => {
            let x = b.clone();
            let i = rng.below(b.len());
            b.splice(i..i, x);
        }
        22 => b = (0..rng.range(1, 600)).map(|_| rng.u64() as u8).collect(),
        _ => {
            let n = rng.range(1, 3);
            for _ in 0..n {
                let i = rng.below(b.len());
                let j = (i + rng.range(1, 20)).min(b.len());
                b.drain(i..j);
                if b.is_empty() {
                    b.push(b'\n');
                }
            }
        }
    }
    b
}

/// Panics that were not planned.
pub static UNPLANNED: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn watch_panics() {
    std::panic::set_hook(Box::new(|i| {
        let t = panic_text(i.payload());
        let planned = t.starts_with("plan ");
        let at = i.location().map_or(String::new(), |l| l.file().to_string());
        // hyper 0.12 overflows on excessive chunk sizes (debug builds)
        let hypers = (at.contains("/hyper-0.12") && at.contains("/src/proto/")) || at.contains("/h2-0.1");
        if !planned && !hypers {
            UNPLANNED
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push(format!("{} at {:?}", t, i.location().map(|l| l.to_string())));
        }
    }));
}

impl Registry {
    pub fn run_tcp(&self, o: &Opts) -> Stats {
        let mut st = Stats::default();
        watch_panics();
        JOIN.store(true, Ordering::SeqCst);
        let mut rt = tokio::runtime::Builder::new()
            .core_threads(3)
            .build()
            .expect("runtime");
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let pump = std::thread::spawn(move || {
            while !s2.load(Ordering::SeqCst) {
                let v: Vec<_> = SENT.lock().unwrap().values().cloned().collect();
                let mut any = false;
                for s in &v {
                    any |= s.fire();
                }
                if !any {
                    std::thread::sleep(Duration::from_micros(50));
                }
            }
        });
        let hostile_per_type = if o.filter.iter().any(|f| f == "hostile") { 40 } else { 2 };
        let t0 = Instant::now();
        for e in &self.entries {
            if let Some((c, t, _)) = o.only {
                if e.case != c || e.ti != t {
                    continue;
                }
            }
            if t0.elapsed() > o.budget {
                st.count("budget_cut");
                break;
            }
            let mk = match e.svc {
                Some(m) => m,
                None => continue,
            };
            let case = Arc::new(self.case(e.case));
            let mut rng = self.req_rng(o, e, 0);
            let life: Life = Arc::new(());
            let mut servers = vec![];
            for sync in &[false, true] {
                let nonce = 1000 + (rng.u64() % 1_000_000) * 100;
                let caught = rng.pct(65);
                servers.push((nonce, *sync, caught, serve(&mut rt, mk(nonce, &life, *sync, caught))));
            }
            let mut handles = vec![];
            for t in 0..4u64 {
                let (nonce, sync, caught, server) = &servers[(t % 2) as usize];
                let (nonce, sync, caught, addr) = (*nonce, *sync, *caught, server.addr);
                let (case, o, ti) = (case.clone(), o.clone(), e.ti);
                let mut rng = Rng::derive(rng.u64(), "client", t);
                handles.push(std::thread::spawn(move || {
                    let mut counters = BTreeMap::new();
                    let n = o.reqs / 4 + 1;
                    let (obs, hang) = client_run(
                        &mut rng,
                        addr,
                        n,
                        |rng| sendable(rng, &case, ti, &o, nonce, sync, caught, None),
                        &mut counters,
                    );
                    (obs, hang, counters)
                }));
            }
            let mut all: Vec<Obs> = vec![];
            for h in handles {
                match h.join() {
                    Ok((obs, hang, counters)) => {
                        for (k, v) in counters {
                            *st.counters.entry(k).or_insert(0) += v;
                        }
                        if let Some(h) = hang {
                            record_call(&mut st, e, &case, 0, obs.last().map(|x| &x.0), vec!["C14", "C20"], h, "tcp");
                        }
                        all.extend(obs);
                    }
                    Err(p) => record_call(&mut st, e, &case, 0, None, vec![], format!("client panicked: {}", panic_text(&*p)), "tcp"),
                }
            }
            for (nonce, sync, caught, server) in &servers {
                let mut counters = BTreeMap::new();
                let (obs, hang) = h2_run(
                    &mut rt,
                    &mut rng,
                    server.addr,
                    o.reqs / 4 + 1,
                    |rng| sendable(rng, &case, e.ti, o, *nonce, *sync, *caught, Some(server.addr)),
                    &mut counters,
                );
                for (k, v) in counters {
                    *st.counters.entry(k).or_insert(0) += v;
                }
                if let Some(h) = hang {
                    record_call(&mut st, e, &case, 0, obs.last().map(|x| &x.0), vec!["C14", "C20"], h, "h2");
                }
                all.extend(obs);
            }
            // hostile bytes, followed by a well-formed request
            for h in 0..hostile_per_type {
                let (nonce, sync, caught, server) = &servers[h % 2];
                let (nonce, sync, caught, addr) = (*nonce, *sync, *caught, server.addr);
                let base = match sendable(&mut rng, &case, e.ti, o, nonce, sync, caught, None) {
                    Some(s) => s.wire,
                    None => continue,
                };
                // mutated requests must not pass for another one's session
                let base: Vec<u8> = String::from_utf8_lossy(&base).replace("x-sess", "y-sess").replace("X-SESS", "y-sess").into_bytes();
                let bytes = hostile(&mut rng, &base);
                let mut c = match Client::connect(addr) {
                    Ok(c) => c,
                    Err(x) => {
                        record_call(&mut st, e, &case, h, None, vec!["C20"], format!("cannot connect any more: {}", x), "hostile");
                        break;
                    }
                };
                let _ = c.send(&bytes);
                c.half_close();
                st.runs += 1;
                st.count("hostile_connections");
                match c.drain() {
                    Ok(n) => {
                        let class = String::from_utf8_lossy(&c.buf.iter().take(12).cloned().collect::<Vec<_>>()).to_string();
                        let class = if n == 0 { "closed without response".to_string() } else { class };
                        *st.classes.entry(format!("hostile: {}", class)).or_insert(0) += 1;
                    }
                    Err(x) => {
                        record_call(&mut st, e, &case, h, None, vec!["C20"], format!("after {}: connection neither answered nor closed: {:?}", crate::show(&bytes), x), "hostile");
                    }
                }
                let mut counters = BTreeMap::new();
                let (obs, hang) = client_run(
                    &mut rng,
                    addr,
                    1,
                    |rng| sendable(rng, &case, e.ti, o, nonce, sync, caught, None),
                    &mut counters,
                );
                st.count("liveness_probes");
                if let Some(x) = hang {
                    record_call(&mut st, e, &case, h, obs.last().map(|x| &x.0), vec!["C20"], format!("after {}: {}", crate::show(&bytes), x), "hostile");
                }
                all.extend(obs);
            }
            // the servers are done before events are judged
            for s in servers.iter_mut() {
                if let Some(x) = s.3.stop.take() {
                    let _ = x.send(());
                }
            }
            for (k, (c, s, got)) in all.into_iter().enumerate() {
                let ev = s.events();
                note_call(&mut st, e, &c, 0, ev.len(), "tcp");
                match got {
                    None => {
                        st.count("unjudged_responses");
                        let mut se = spec_events(&ev);
                        // an abandoned request's body ends with an error
                        if let Some(i) = se.iter().position(|x| match x { Ev::BodyStart(..) | Ev::ProbeStart(..) => true, _ => false }) {
                            se.truncate(i + 1);
                        }
                        if (se.len() > c.want_ev.len() || se[..] != c.want_ev[..se.len()]) && decode_differs(e, &case, &c).is_none() {
                            record_call(&mut st, e, &case, k, Some(&c), vec!["C14"], format!("events {:?} are no prefix of {:?}", se, c.want_ev), "tcp");
                        }
                    }
                    Some(got) => {
                        let w = Call {
                            want: as_wire(&c.want, c.req.method == "HEAD"),
                            ..c
                        };
                        if let Some((b, what)) = blame(&w, &got, &ev) {
                            match decode_differs(e, &case, &w) {
                                Some(m) => record_call(&mut st, e, &case, k, Some(&w), m.blame.into_iter().collect(), format!("decode: {}", m.what), "tcp"),
                                None => record_call(&mut st, e, &case, k, Some(&w), b.into_iter().collect(), what, "tcp"),
                            }
                        } else if st.samples.len() < 2 && w.want_ev.len() > 1 {
                            st.samples.push(serde_json::json!({
                                "declaration": vspec::emit::emit_decl(&case, e.ti), "sent": describe(&w.req),
                                "expected_and_received": got.text(), "events": format!("{:?}", w.want_ev),
                            }));
                        }
                    }
                }
            }
            SENT.lock().unwrap().clear();
            let bad: Vec<String> = UNPLANNED.lock().unwrap().drain(..).collect();
            if !bad.is_empty() {
                record_call(&mut st, e, &case, 0, None, vec!["C20"], format!("panics while serving: {:?}", bad), "tcp");
            }
        }
        stop.store(true, Ordering::SeqCst);
        let _ = pump.join();
        let _ = rt.shutdown_now().wait();
        st
    }
}
