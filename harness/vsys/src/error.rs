//! `hyperdrive::Error` against its specification, for every status, constructor and source kind.

use crate::report::*;
use http::{Method, StatusCode};
use hyperdrive::{BoxedError, Error};
use std::borrow::Cow;
use std::error::Error as StdError;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vspec::rng::Rng;

#[derive(Debug, PartialEq)]
struct Src(u64, Option<Box<Src>>);
impl fmt::Display for Src {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "src-{}-disp", self.0)
    }
}
impl StdError for Src {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.1.as_ref().map(|b| &**b as &(dyn StdError + 'static))
    }
}

enum Want {
    Panic,
    Err {
        status: u16,
        allow: Option<Vec<String>>,
        /// (display, debug) of the source
        source: Option<(String, String)>,
    },
}

fn caught(f: impl FnOnce() -> Error) -> Option<Error> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn verify(r: &mut Report, how: &str, e: Option<Error>, want: Want) {
    r.runs += 1;
    let (e, status, allow, source) = match (e, want) {
        (None, Want::Panic) => {
            r.class(&format!("{} panics", how.split(' ').next().unwrap()));
            return;
        }
        (Some(e), Want::Panic) => return r.bad(&["C17"], format!("{}: did not panic, got {:?}", how, e)),
        (None, Want::Err { .. }) => return r.bad(&["C17"], format!("{}: construction panicked", how)),
        (Some(e), Want::Err { status, allow, source }) => (e, status, allow, source),
    };
    let mut bad = vec![];
    let facts = |e: &Error, bad: &mut Vec<String>| {
        if e.http_status().as_u16() != status {
            bad.push(format!("http_status() = {}", e.http_status()));
        }
        let got = e.allowed_methods().map(|m| m.iter().map(|m| m.to_string()).collect::<Vec<_>>());
        if got != allow {
            bad.push(format!("allowed_methods() = {:?}", got));
        }
        let inherent = Error::source(e).map(|s| (s.to_string(), format!("{:?}", s)));
        if inherent != source {
            bad.push(format!("source() = {:?}", inherent));
        }
        let by_trait = StdError::source(e).map(|s| (s.to_string(), format!("{:?}", s)));
        if by_trait != source {
            bad.push(format!("Error::source() = {:?}", by_trait));
        }
        let a = Error::source(e).map(|s| s as *const dyn StdError as *const u8);
        let b = StdError::source(e).map(|s| s as *const dyn StdError as *const u8);
        if a != b {
            bad.push("the two source methods return different objects".into());
        }
        let d = e.to_string();
        let code = status.to_string();
        match &source {
            None => {
                if !d.starts_with(&code) || d.contains("disp") {
                    bad.push(format!("Display is {:?}", d));
                }
            }
            Some((s, _)) => {
                if !d.starts_with(&code) || !d.ends_with(s.as_str()) {
                    bad.push(format!("Display is {:?}", d));
                }
            }
        }
        let d = format!("{:?}", e);
        if !d.contains(&code) {
            bad.push(format!("Debug {:?} does not show the status", d));
        }
        if let Some((_, s)) = &source {
            if !d.contains(s.as_str()) {
                bad.push(format!("Debug {:?} does not show the source", d));
            }
        }
        for m in allow.iter().flatten() {
            if !d.contains(m.as_str()) {
                bad.push(format!("Debug {:?} does not show {}", d, m));
            }
        }
    };
    let response = |e: &Error, bad: &mut Vec<String>| {
        let x = e.response();
        if x.status().as_u16() != status {
            bad.push(format!("response status {}", x.status()));
        }
        let h: Vec<(String, String)> = x
            .headers()
            .iter()
            .map(|(n, v)| (n.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
            .collect();
        let want: Vec<(String, String)> = match &allow {
            Some(m) => vec![("allow".to_string(), m.join(", "))],
            None => vec![],
        };
        // whitespace around the commas is insignificant
        let norm = |h: &[(String, String)]| -> Vec<(String, Vec<String>)> {
            h.iter()
                .map(|(n, v)| (n.clone(), v.split(',').map(|s| s.trim().to_string()).collect()))
                .collect()
        };
        if norm(&h) != norm(&want) {
            bad.push(format!("response headers {:?}, expected {:?}", h, want));
        }
        if x.version() != http::Version::HTTP_11 {
            bad.push(format!("response version {:?}", x.version()));
        }
    };
    facts(&e, &mut bad);
    response(&e, &mut bad);
    response(&e, &mut bad);
    facts(&e, &mut bad);
    r.events += 4;
    // as a boxed error, also used from other threads
    let b: BoxedError = e.into();
    let b = std::sync::Arc::new(b);
    match b.downcast_ref::<Error>() {
        None => bad.push("a boxed error is no hyperdrive::Error any more".into()),
        Some(e) => {
            response(e, &mut bad);
            facts(e, &mut bad);
            if b.to_string() != e.to_string() {
                bad.push("boxing changes Display".into());
            }
        }
    }
    if !bad.is_empty() {
        r.bad(&["C17"], format!("{}: {}", how, bad.join("; ")));
    }
    r.class(&format!(
        "{} {} methods={} source={}",
        how.split(' ').next().unwrap(),
        status,
        allow.as_ref().map_or("none".into(), |a| a.len().to_string()),
        source.is_some()
    ));
    if r.runs % 977 == 0 {
        r.sample(serde_json::json!({"constructor": how, "status": status, "allowed": allow, "source": source}));
    }
}

fn leak(m: Method) -> &'static Method {
    Box::leak(Box::new(m))
}

/// An error which may contain others, of hyperdrive's and of its own.
fn nested(rng: &mut Rng, n: u64, depth: usize) -> Error {
    let st = StatusCode::from_u16(*rng.pick(&[400u16, 404, 405, 418, 499, 500, 503, 599])).unwrap();
    match rng.below(if depth > 0 { 6 } else { 4 }) {
        0 => Error::wrong_method(&[][..]),
        1 => Error::wrong_method(vec![&Method::GET, &Method::PUT]),
        2 => Error::from_status(st),
        3 => Error::with_source(st, Src(n, None)),
        _ => {
            let inner = nested(rng, n, depth - 1);
            Error::with_source(st, inner)
        }
    }
}

pub fn run(o: &mut Opts, r: &mut Report) {
    let mut rng = Rng::derive(o.seed, "error", 0);
    let std: Vec<&'static Method> = vec![
        &Method::GET,
        &Method::POST,
        &Method::PUT,
        &Method::DELETE,
        &Method::HEAD,
        &Method::OPTIONS,
        &Method::CONNECT,
        &Method::PATCH,
        &Method::TRACE,
    ];
    for code in 100..=999u16 {
        let st = match StatusCode::from_u16(code) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let ok = code >= 400 && code < 600;
        let allow = if code == 405 { Some(vec![]) } else { None };
        let want = |source: Option<(String, String)>| {
            if ok {
                Want::Err {
                    status: code,
                    allow: allow.clone(),
                    source,
                }
            } else {
                Want::Panic
            }
        };
        verify(r, &format!("from_status {}", code), caught(|| Error::from_status(st)), want(None));
        for k in 0..6 {
            let n = rng.u64() % 1000;
            let (how, e, src): (String, Option<Error>, (String, String)) = match k {
                0 => {
                    let s = Src(n, None);
                    let t = (s.to_string(), format!("{:?}", s));
                    ("plain".into(), caught(|| Error::with_source(st, s)), t)
                }
                1 => {
                    let s = Src(n, Some(Box::new(Src(n + 1, None))));
                    let t = (s.to_string(), format!("{:?}", s));
                    ("chained".into(), caught(|| Error::with_source(st, s)), t)
                }
                2 => {
                    let s = format!("text {} disp", n);
                    let t = (s.clone(), format!("{:?}", s));
                    ("string".into(), caught(|| Error::with_source(st, s)), t)
                }
                3 => {
                    let s: BoxedError = Box::new(Src(n, None));
                    let t = (s.to_string(), format!("{:?}", s));
                    ("boxed".into(), caught(|| Error::with_source(st, s)), t)
                }
                4 => {
                    let s = std::io::Error::new(std::io::ErrorKind::Other, Src(n, None));
                    let t = (s.to_string(), format!("{:?}", s));
                    ("io".into(), caught(|| Error::with_source(st, s)), t)
                }
                _ => {
                    // an Error inside an Error must not leak its status or methods
                    let s = nested(&mut rng, n, 3);
                    let t = (s.to_string(), format!("{:?}", s));
                    if n % 2 == 0 {
                        ("nested".into(), caught(|| Error::with_source(st, s)), t)
                    } else {
                        let s: BoxedError = s.into();
                        ("nested-boxed".into(), caught(|| Error::with_source(st, s)), t)
                    }
                }
            };
            verify(r, &format!("with_source/{} {}", how, code), e, want(Some(src)));
        }
        // the conversion to a failed future keeps the error
        if ok {
            let mut f = caught(|| Error::with_source(st, Src(7, None))).map(|e| e.into_future::<u32>());
            use futures::Future;
            match f.as_mut().map(|f| f.poll()) {
                Some(Err(e)) => {
                    let e = e.downcast::<Error>().map(|b| *b).ok();
                    let s = Src(7, None);
                    verify(r, &format!("into_future {}", code), e, want(Some((s.to_string(), format!("{:?}", s)))));
                }
                x => r.bad(&["C17"], format!("into_future {}: {:?}", code, x.map(|x| x.map_err(|e| e.to_string())))),
            }
        }
    }
    for k in 0..o.n {
        let len = rng.weighted(&[1, 2, 3, 3, 3, 2, 1, 1]);
        let mut ms: Vec<&'static Method> = vec![];
        for _ in 0..len {
            ms.push(if rng.pct(75) {
                *rng.pick(&std)
            } else {
                let n = rng.range(1, 40);
                let t: String = (0..n).map(|_| *rng.pick(&['A', 'b', '-', 'Z', '_', '!', '9', '~'])).collect();
                leak(Method::from_bytes(t.as_bytes()).unwrap())
            });
        }
        let names: Vec<String> = ms.iter().map(|m| m.as_str().to_string()).collect();
        let want = Want::Err {
            status: 405,
            allow: Some(names),
            source: None,
        };
        match k % 3 {
            0 => verify(r, "wrong_method/vec", caught(|| Error::wrong_method(ms)), want),
            1 => {
                let s: &'static [&'static Method] = Box::leak(ms.into_boxed_slice());
                verify(r, "wrong_method/slice", caught(|| Error::wrong_method(s)), want)
            }
            _ => verify(r, "wrong_method/cow", caught(|| Error::wrong_method(Cow::Owned(ms))), want),
        }
    }
    fn is<T: Send + Sync + 'static>() {}
    is::<Error>();
    r.count("constructions", r.runs);
}
