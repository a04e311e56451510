//! Runs generated types against the reference model and reports mismatches.

use crate::exec::*;
use crate::model::*;
use crate::reqgen::*;
use crate::session::*;
use crate::types::*;
use futures::Future;
use hyperdrive::{BoxedError, FromRequest};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use vspec::gen;
use vspec::rng::Rng;
use vspec::spec::*;

type HReq = http::Request<hyper::Body>;

#[derive(Clone)]
pub struct Entry {
    pub case: u64,
    pub ti: usize,
    pub owned: fn(HReq, u64, &Life) -> NodeFut,
    pub shared: fn(&Arc<http::Request<()>>, hyper::Body, u64, &Life) -> NodeFut,
    pub sync: fn(HReq, u64, &Life) -> Result<Node, BoxedError>,
    pub svc: Option<crate::svc::MakeSvc>,
}

pub struct Registry {
    pub seed: u64,
    pub profile: gen::Profile,
    pub shard: usize,
    pub entries: Vec<Entry>,
}

fn owned<T, C>(r: HReq, n: u64, l: &Life) -> NodeFut
where
    T: FromRequest<Context = C> + Dump + Send + 'static,
    T::Future: 'static,
    C: TestCtx,
{
    Box::new(T::from_request(r, C::make(n, l)).map(|v| v.dump()))
}
fn shared<T, C>(r: &Arc<http::Request<()>>, b: hyper::Body, n: u64, l: &Life) -> NodeFut
where
    T: FromRequest<Context = C> + Dump + Send + 'static,
    T::Future: 'static,
    C: TestCtx,
{
    Box::new(T::from_request_and_body(r, b, C::make(n, l)).map(|v| v.dump()))
}
fn sync<T, C>(r: HReq, n: u64, l: &Life) -> Result<Node, BoxedError>
where
    T: FromRequest<Context = C> + Dump + Send + 'static,
    T::Future: 'static,
    C: TestCtx,
{
    T::from_request_sync(r, C::make(n, l)).map(|v| v.dump())
}

/// A request ready to be handed to hyperdrive, with what the monitors need to know about it.
pub struct Built {
    pub req: HReq,
    pub session: Arc<Session>,
    pub fp: String,
    pub path: String,
    pub query: Option<String>,
    pub life: Life,
}

static SESSION_IDS: AtomicUsize = AtomicUsize::new(1);

pub fn build(r: &Req) -> Option<Built> {
    let id = SESSION_IDS.fetch_add(1, Ordering::SeqCst) as u64;
    build_with(r, id)
}

pub fn build_with(r: &Req, id: u64) -> Option<Built> {
    let session = Session::new(id, r.plan.clone());
    let body = match &r.body {
        BodyKind::Empty => hyper::Body::empty(),
        BodyKind::Full(b) => hyper::Body::from(b.clone()),
        BodyKind::Stream(items) => hyper::Body::wrap_stream(ScriptStream {
            s: session.clone(),
            items: items.iter().cloned().collect::<VecDeque<_>>(),
        }),
    };
    let uri: http::Uri = r.target.parse().ok()?;
    let (path, query) = split_target(&r.target);
    if uri.path() != path || uri.query() != query.as_ref().map(|s| s.as_str()) {
        return None;
    }
    let mut req = http::Request::new(body);
    *req.method_mut() = http::Method::from_bytes(r.method.as_bytes()).ok()?;
    *req.uri_mut() = uri;
    *req.version_mut() = r.version;
    for (n, v) in &r.headers {
        req.headers_mut().append(
            http::header::HeaderName::from_bytes(n.as_bytes()).ok()?,
            http::header::HeaderValue::from_bytes(v).ok()?,
        );
    }
    req.extensions_mut().insert(SessRef(session.clone()));
    let fp = fingerprint(&req);
    Some(Built {
        req,
        session,
        fp,
        path,
        query,
        life: Arc::new(()),
    })
}

pub fn expect_for(case: &CaseSpec, ti: usize, r: &Req, b: &Built) -> Expect {
    expect(
        case,
        ti,
        &ReqInfo {
            method: &r.method,
            path: &b.path,
            query: b.query.as_ref().map(|s| s.as_str()),
            fp: &b.fp,
            body: &r.body,
            nonce: r.nonce,
            plan: &r.plan,
        },
    )
}

/// Events whose order is specified.
pub fn spec_events(ev: &[Ev]) -> Vec<Ev> {
    ev.iter()
        .filter(|e| match e {
            Ev::StreamPoll | Ev::StreamDrop => false,
            _ => true,
        })
        .cloned()
        .collect()
}

pub struct Mismatch {
    pub blame: BTreeSet<&'static str>,
    pub what: String,
}

fn cat_of_err(k: &ErrKind) -> &'static [&'static str] {
    match k {
        ErrKind::Hyper { status: 404, source: None, .. } => &["C01"],
        ErrKind::Hyper { status: 404, source: Some(_), .. } => &["C02"],
        ErrKind::Hyper { status: 405, .. } => &["C04"],
        ErrKind::Hyper { status: 400, .. } => &["C06"],
        ErrKind::Hyper { .. } => &["C07"],
        ErrKind::Plan(_) => &["C07"],
        ErrKind::Json(_) | ErrKind::Form(_) | ErrKind::Stream(_) => &["C09"],
        ErrKind::Other(_) => &[],
    }
}

fn cat_of_stage(e: &Expect) -> &'static [&'static str] {
    match e.stage {
        Stage::Done => &[],
        Stage::NotFound => &["C01"],
        Stage::WrongMethod => &["C04"],
        Stage::Merged => &["C04", "C05"],
        Stage::Segment => &["C02"],
        Stage::Query => &["C06"],
        Stage::Guard => &["C07"],
        Stage::Body => match &e.res {
            Res::Err(ErrKind::Json(_)) | Res::Err(ErrKind::Form(_)) => &["C09"],
            Res::Err(ErrKind::Stream(_)) => &["C09"],
            _ => &["C07"],
        },
        Stage::Probe => &["C05", "C07"],
    }
}

/// Attributes the difference of two decoded values.
fn node_blame(case: &CaseSpec, ti: usize, e: &Node, g: &Node, nested: bool, out: &mut BTreeSet<&'static str>) {
    if nested {
        out.insert("C05");
    }
    let (et, ef, gt, gf) = match (e, g) {
        (Node::Node(et, ef), Node::Node(gt, gf)) => (et, ef, gt, gf),
        _ => {
            out.insert("C01");
            return;
        }
    };
    if et != gt || ef.len() != gf.len() {
        out.insert("C01");
        return;
    }
    let v = match case.types[ti].vars.iter().find(|v| v.name == *et) {
        Some(v) => v,
        None => return,
    };
    for ((n, a), (_, b)) in ef.iter().zip(gf) {
        if a == b {
            continue;
        }
        match v.field(n).map(|f| f.role) {
            Some(Role::Seg(_)) => {
                out.insert("C02");
            }
            Some(Role::Query(_)) => {
                out.insert("C06");
            }
            Some(Role::Body(BTy::Raw(_))) | Some(Role::Body(BTy::Early(_))) => {
                out.insert("C08");
            }
            Some(Role::Body(_)) => {
                out.insert("C09");
            }
            Some(Role::Guard(_)) => {
                out.insert("C08");
                if let (Node::Node(_, a), Node::Node(_, b)) = (a, b) {
                    if a[0] != b[0] {
                        out.insert("C07");
                    }
                    if a[1] != b[1] {
                        out.insert("C19");
                    }
                }
            }
            Some(Role::Forward(FwTy::Type(i))) => node_blame(case, i, a, b, true, out),
            Some(Role::Forward(FwTy::Probe)) => {
                out.insert("C05");
                out.insert("C08");
            }
            _ => {}
        }
    }
}

/// Compares one observed decode with the model's expectation.
pub fn compare(case: &CaseSpec, ti: usize, r: &Req, e: &Expect, got: &Res, events: &[Ev]) -> Option<Mismatch> {
    let mut blame: BTreeSet<&'static str> = BTreeSet::new();
    let mut what = vec![];
    if e.res != *got {
        what.push(format!("expected {} got {}", e.res.text(), got.text()));
        blame.extend(cat_of_stage(e));
        match got {
            Res::Ok(g) => match &e.res {
                Res::Ok(x) => node_blame(case, ti, x, g, false, &mut blame),
                Res::Err(_) => {
                    // decoded although it had to fail
                    if e.stage == Stage::WrongMethod {
                        blame.insert("C01");
                    }
                }
                _ => {}
            },
            Res::Err(k) => {
                blame.extend(cat_of_err(k));
                if let ErrKind::Other(_) = k {
                    if blame.is_empty() {
                        blame.insert("C07");
                    }
                }
                match k {
                    ErrKind::Hyper { status: 405, .. } if e.stage == Stage::Done || e.stage == Stage::NotFound => {
                        blame.insert("C01");
                    }
                    _ => {}
                }
                if let Res::Err(x) = &e.res {
                    if cat_of_err(x) != cat_of_err(k) {
                        blame.insert("C07");
                    }
                }
            }
            Res::Panic(_) | Res::Stall => {
                blame.insert("C20");
                if let Res::Stall = got {
                    blame.insert("C21");
                }
                if let (Stage::Done, Res::Ok(Node::Node(name, _))) = (e.stage, &e.res) {
                    // any of the steps that had to succeed
                    for f in case.types[ti].vars.iter().filter(|v| v.name == *name).flat_map(|v| &v.fields) {
                        blame.extend(match f.role {
                            Role::Seg(_) => Some("C02"),
                            Role::Query(_) => Some("C06"),
                            Role::Guard(_) => Some("C07"),
                            Role::Body(BTy::Raw(_)) | Role::Body(BTy::Early(_)) => Some("C08"),
                            Role::Body(_) => Some("C09"),
                            Role::Forward(_) => Some("C05"),
                            _ => None,
                        });
                    }
                }
            }
        }
        if r.method == "HEAD" {
            blame.insert("C03");
        }
        if e.forwarded || e.used_fallback {
            blame.insert("C05");
        }
        // wrong variant although conversions decide: the value of a 404 with source
        if let (Stage::Done, Res::Err(ErrKind::Hyper { status: 404, source: Some(_), .. })) = (e.stage, got) {
            blame.insert("C01");
        }
    }
    let se = spec_events(events);
    if se != e.events {
        let same_end = e.res == *got
            || match (&e.res, got) {
                (Res::Err(_), Res::Err(_)) => true,
                (Res::Panic(_), Res::Panic(_)) => true,
                _ => false,
            };
        what.push(format!("expected events {:?} got {:?}", e.events, se));
        if same_end || blame.is_empty() || se.len() > e.events.len() {
            blame.insert("C07");
        }
        if e.forwarded {
            blame.insert("C05");
        }
        let strip = |v: &[Ev]| -> Vec<Ev> {
            v.iter()
                .map(|e| match e {
                    Ev::GuardStart(a, b, c, _) => Ev::GuardStart(*a, b, *c, String::new()),
                    Ev::BodyStart(a, _) => Ev::BodyStart(a, String::new()),
                    Ev::ProbeStart(a, _) => Ev::ProbeStart(*a, String::new()),
                    e => e.clone(),
                })
                .collect()
        };
        if strip(&se) == strip(&e.events) {
            blame.insert("C08");
            blame.insert("C19");
            blame.remove("C07");
        }
    }
    // the body stream
    let first_poll = events.iter().position(|x| *x == Ev::StreamPoll);
    if let Some(p) = first_poll {
        let guards_done = events[..p].iter().filter(|x| if let Ev::GuardEnd(_) = x { true } else { false }).count();
        if !e.reads_body {
            what.push("body was polled although nothing reads it".into());
            blame.insert("C07");
            blame.insert("C21");
        } else if guards_done < e.guards_ok {
            what.push(format!("body polled after {} of {} guards", guards_done, e.guards_ok));
            blame.insert("C07");
        }
    }
    if what.is_empty() {
        None
    } else {
        Some(Mismatch {
            blame,
            what: what.join("; "),
        })
    }
}

#[derive(Default)]
pub struct Stats {
    pub runs: usize,
    pub skipped: usize,
    pub events: usize,
    pub polls: usize,
    pub stream_polls: usize,
    pub classes: BTreeMap<String, usize>,
    pub distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, usize>,
    pub samples: Vec<serde_json::Value>,
    pub mismatches: Vec<serde_json::Value>,
}

impl Stats {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.skipped += o.skipped;
        self.events += o.events;
        self.polls += o.polls;
        self.stream_polls += o.stream_polls;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.mismatches.extend(o.mismatches);
    }
}

pub fn describe(r: &Req) -> serde_json::Value {
    json!({
        "method": r.method, "target": r.target, "version": format!("{:?}", r.version),
        "headers": r.headers.iter().map(|(n, v)| format!("{}: {}", n, crate::show(v))).collect::<Vec<_>>(),
        "body": match &r.body {
            BodyKind::Empty => "empty".to_string(),
            BodyKind::Full(b) => format!("full {}", crate::show(b)),
            BodyKind::Stream(i) => format!("stream {:?}", i.iter().map(|i| match i {
                Item::Chunk(c) => format!("{}", crate::show(c)),
                x => format!("<{:?}>", x)
            }).collect::<Vec<_>>()),
        },
        "plan": format!("guards {:?} body {:?} probes {:?}",
            r.plan.guards.iter().take(6).map(|g| format!("{:?}/{:?}", g.pends, g.out)).collect::<Vec<_>>(),
            r.plan.body, r.plan.probes),
        "context_nonce": r.nonce,
    })
}

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub mode: String,
    pub reqs: usize,
    pub out: String,
    pub only: Option<(u64, usize, usize)>,
    pub rseed: u64,
    pub ro: ReqOpts,
    pub filter: Vec<String>,
    /// percentage of service calls that are dropped before they are done
    pub cancel: u32,
    pub budget: Duration,
}

impl Registry {
    pub fn new(seed: u64, profile: &str, cases: usize, shard: usize) -> Registry {
        let mut p = gen::profile(profile);
        p.cases = cases;
        Registry {
            seed,
            profile: p,
            shard,
            entries: vec![],
        }
    }

    pub fn add<T, C>(&mut self, case: u64, ti: usize)
    where
        T: FromRequest<Context = C> + Dump + Send + 'static,
        T::Future: 'static,
        C: TestCtx,
    {
        self.entries.push(Entry {
            case,
            ti,
            owned: owned::<T, C>,
            shared: shared::<T, C>,
            sync: sync::<T, C>,
            svc: None,
        });
    }

    /// Like `add`, for types that are also run through the service adapters.
    pub fn add_svc<T, C>(&mut self, case: u64, ti: usize)
    where
        T: FromRequest<Context = C> + Dump + Send + 'static,
        T::Future: 'static,
        C: TestCtx,
    {
        self.add::<T, C>(case, ti);
        self.entries.last_mut().unwrap().svc = Some(crate::svc::make_svc::<T, C>);
    }

    pub fn case(&self, id: u64) -> CaseSpec {
        gen::gen_case(self.seed, &self.profile, id)
    }

    pub fn main(self) {
        let mut o = Opts {
            prop: String::new(),
            mode: "std".into(),
            reqs: 100,
            out: String::new(),
            only: None,
            rseed: self.seed,
            ro: ReqOpts::default(),
            filter: vec![],
            cancel: 10,
            budget: Duration::from_secs(100_000),
        };
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        let mut only = vec![];
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            let n = || v.parse::<u32>().expect("number");
            match a[i].as_str() {
                "--prop" => o.prop = v.clone(),
                "--mode" => o.mode = v.clone(),
                "--reqs" => o.reqs = n() as usize,
                "--out" => o.out = v.clone(),
                "--only" => only = v.split(',').map(|x| x.parse::<u64>().unwrap()).collect(),
                "--rseed" => o.rseed = v.parse().unwrap(),
                "--step-err" => o.ro.step_err = n(),
                "--pend" => o.ro.pend = n(),
                "--panic" => o.ro.panic = n(),
                "--hang" => o.ro.hang = n(),
                "--stream-err" => o.ro.stream_err = n(),
                "--seg-bad" => o.ro.seg_bad = n(),
                "--mutate" => o.ro.mutate = n(),
                "--wrong-method" => o.ro.wrong_method = n(),
                "--hostile" => o.ro.hostile = n(),
                "--filter" => o.filter = v.split(',').map(|s| s.to_string()).collect(),
                "--cancel" => o.cancel = n(),
                "--budget" => o.budget = Duration::from_secs(n() as u64),
                x => panic!("unknown argument {}", x),
            }
            i += 2;
        }
        if only.len() == 3 {
            o.only = Some((only[0], only[1] as usize, only[2] as usize));
        }
        // planned and caught panics are not worth printing
        std::panic::set_hook(Box::new(|_| {}));
        let t = Instant::now();
        let stats = match o.mode.as_str() {
            "std" | "cancel" | "sync" => self.run_seq(&o),
            "conc" => self.run_conc(&o),
            "hammer" => self.run_hammer(&o),
            "svc" => self.run_svc(&o),
            "pool" => self.run_pool(&o),
            "tcp" => self.run_tcp(&o),
            m => panic!("unknown mode {}", m),
        };
        let report = json!({
            "shard": self.shard, "types": self.entries.len(),
            "cases": self.entries.iter().map(|e| e.case).collect::<BTreeSet<_>>().len(),
            "runs": stats.runs, "skipped": stats.skipped, "events": stats.events, "polls": stats.polls,
            "stream_polls": stats.stream_polls, "classes": stats.classes,
            "distinct": stats.distinct.iter().map(|d| format!("{:016x}", d)).collect::<Vec<_>>(),
            "counters": stats.counters, "samples": stats.samples, "mismatches": stats.mismatches,
            "wall_s": t.elapsed().as_secs_f64(),
        });
        let text = serde_json::to_string(&report).unwrap();
        if o.out.is_empty() {
            println!("{}", serde_json::to_string_pretty(&report).unwrap());
        } else {
            std::fs::write(&o.out, text).unwrap();
        }
    }

    pub fn req_rng(&self, o: &Opts, e: &Entry, k: usize) -> Rng {
        Rng::derive(
            o.rseed ^ 0x5151,
            &format!("{}:{}:{}", self.profile.name, e.case, e.ti),
            k as u64,
        )
    }

    /// Whether a request is of interest to the property under test; others are only run rarely.
    fn interesting(o: &Opts, e: &Expect, r: &Req) -> bool {
        if o.filter.is_empty() {
            return true;
        }
        o.filter.iter().any(|f| match f.as_str() {
            "head" => r.method == "HEAD",
            "405" => match e.stage {
                Stage::WrongMethod | Stage::Merged => true,
                _ => false,
            },
            "fwd" => e.forwarded || e.used_fallback,
            "reads" => e.reads_body,
            "guards" => e.events.len() > 1,
            _ => true,
        })
    }

    fn record(
        st: &mut Stats,
        e: &Entry,
        case: &CaseSpec,
        k: usize,
        r: &Req,
        blame: Vec<&str>,
        what: String,
        how: &str,
    ) {
        if st.mismatches.len() < 60 {
            st.mismatches.push(json!({
                "case": e.case, "type": e.ti, "req": k, "blame": blame, "what": what, "how": how,
                "request": describe(r),
                "declaration": vspec::emit::emit_decl(case, e.ti),
            }));
        } else {
            st.mismatches.push(json!({"case": e.case, "type": e.ti, "req": k, "blame": blame}));
        }
    }

    fn note(st: &mut Stats, e: &Entry, x: &Expect, r: &Req, d: &Driven) {
        st.runs += 1;
        st.polls += d.polls;
        st.events += d.s.events().len();
        st.stream_polls += d.s.stream_polls.load(Ordering::SeqCst);
        let class = x.res.class();
        *st.classes.entry(class.clone()).or_insert(0) += 1;
        let trace: String = x.events.iter().map(|e| format!("{:?}", std::mem::discriminant(e))).collect();
        let sig = format!(
            "{}/{}/{}/{}/{}/{}/{}",
            e.case,
            e.ti,
            x.route,
            class,
            trace,
            x.implicit_head,
            if x.res.class() == "ok" { String::new() } else { r.method.clone() }
        );
        st.distinct.insert(vspec::rng::hash_str(&sig));
        if x.implicit_head {
            st.count("implicit_head");
        }
        if x.forwarded {
            st.count("forwarded");
        }
        if x.used_fallback {
            st.count("fallback");
        }
        if x.stage == Stage::Merged {
            st.count("merged_405");
        }
        if x.reads_body {
            st.count("body_read");
        }
        if x.depth > 1 {
            st.count("depth_2_or_more");
        }
        st.count(&format!("stage_{:?}", x.stage));
    }

    fn run_seq(&self, o: &Opts) -> Stats {
        let mut st = Stats::default();
        let t0 = Instant::now();
        // external wake-ups for decodes running on their own executor
        let pump: Arc<Mutex<Option<Arc<Session>>>> = Arc::new(Mutex::new(None));
        let busy = Arc::new(AtomicUsize::new(0)); // start of the current sync run, in ms + 1
        let start = Instant::now();
        if o.mode == "sync" {
            let p = pump.clone();
            std::thread::spawn(move || loop {
                let s = p.lock().unwrap().clone();
                match s {
                    Some(s) => {
                        if !s.fire() {
                            std::thread::sleep(Duration::from_micros(20));
                        }
                    }
                    None => std::thread::sleep(Duration::from_micros(50)),
                }
            });
            let b = busy.clone();
            let out = o.out.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let s = b.load(Ordering::SeqCst);
                if s != 0 && start.elapsed().as_millis() as usize > s + 40_000 {
                    let m = json!({"hang": true, "mismatches": [{"blame": ["C18"], "what": "from_request_sync did not return within 40 s although the decode completes"}]});
                    let _ = std::fs::write(&out, m.to_string());
                    std::process::exit(0);
                }
            });
        }
        for e in &self.entries {
            if let Some((c, t, _)) = o.only {
                if e.case != c || e.ti != t {
                    continue;
                }
            }
            if t0.elapsed() > o.budget {
                st.count("budget_cut");
                break;
            }
            let case = self.case(e.case);
            for k in 0..o.reqs {
                if let Some((_, _, q)) = o.only {
                    if k != q {
                        continue;
                    }
                }
                let mut rng = self.req_rng(o, e, k);
                let mut found = None;
                for _ in 0..6 {
                    let r = gen_req(&mut rng, &case, e.ti, &o.ro);
                    match build(&r) {
                        None => st.skipped += 1,
                        Some(b) => {
                            let x = expect_for(&case, e.ti, &r, &b);
                            let ok = Self::interesting(o, &x, &r);
                            found = Some((r, b, x));
                            if ok {
                                break;
                            }
                        }
                    }
                }
                let (r, b, x) = match found {
                    Some(f) => f,
                    None => continue,
                };
                self.run_one(o, &mut st, e, &case, k, &r, b, &x, &mut rng, &pump, &busy, start);
                if st.samples.len() < 2 && x.events.len() > 1 && k > 3 {
                    st.samples.push(json!({
                        "declaration": vspec::emit::emit_decl(&case, e.ti), "request": describe(&r),
                        "expected_and_observed": x.res.text(),
                        "events": format!("{:?}", x.events),
                    }));
                }
            }
        }
        st
    }

    #[allow(clippy::too_many_arguments)]
    fn run_one(
        &self,
        o: &Opts,
        st: &mut Stats,
        e: &Entry,
        case: &CaseSpec,
        k: usize,
        r: &Req,
        b: Built,
        x: &Expect,
        rng: &mut Rng,
        pump: &Arc<Mutex<Option<Arc<Session>>>>,
        busy: &Arc<AtomicUsize>,
        start: Instant,
    ) {
        let nonce = r.nonce;
        let use_shared = rng.pct(50);
        let spurious = rng.pct(25);
        let cancel_at = if o.mode == "cancel" && rng.pct(75) {
            Some(rng.below(10))
        } else {
            None
        };
        let Built {
            req, session, life, ..
        } = b;
        let (parts, body) = req.into_parts();
        let mut arc: Option<Arc<http::Request<()>>> = None;
        let mut d = if use_shared {
            let a = Arc::new(http::Request::from_parts(parts, ()));
            arc = Some(a.clone());
            let l = &life;
            Driven::start(&session, || (e.shared)(&a, body, nonce, l))
        } else {
            let req = http::Request::from_parts(parts, body);
            let l = &life;
            Driven::start(&session, || (e.owned)(req, nonce, l))
        };
        let mut cancelled = false;
        let mut steps = 0;
        loop {
            if let Some(c) = cancel_at {
                if steps >= c && d.done.is_none() {
                    cancelled = true;
                    break;
                }
            }
            steps += 1;
            if spurious && rng.pct(40) {
                d.poll();
            }
            if !d.step() {
                break;
            }
            if steps > 200_000 {
                break;
            }
        }
        Self::note(st, e, x, r, &d);
        let got = d.result();
        if !cancelled {
            if let Some(m) = compare(case, e.ti, r, x, &got, &session.events()) {
                Self::record(st, e, case, k, r, m.blame.into_iter().collect(), m.what, "driven");
            }
        } else {
            st.count("cancelled");
            st.count(&format!("cancelled_after_{}_steps", steps.min(9)));
            // whatever ran so far must be a prefix of the expected events
            let ev = spec_events(&session.events());
            if ev.len() > x.events.len() || ev[..] != x.events[..ev.len()] {
                Self::record(
                    st,
                    e,
                    case,
                    k,
                    r,
                    vec!["C07", "C21"],
                    format!("cancelled after {} steps: events {:?} are no prefix of {:?}", steps, ev, x.events),
                    "cancel",
                );
            }
        }
        // release
        session.close();
        d.drop_future();
        while session.fire() {}
        session.clear_wakes();
        let mut leaks = vec![];
        if let Some(Res::Panic(p)) = &d.done {
            if p.starts_with("in drop") {
                leaks.push(format!("panic when dropping the future: {}", p));
            }
        }
        drop(d);
        if Arc::strong_count(&life) != 1 {
            leaks.push(format!("context still referenced {} times", Arc::strong_count(&life) - 1));
        }
        if let Some(a) = &arc {
            if Arc::strong_count(a) != 1 {
                leaks.push(format!("request still referenced {} times", Arc::strong_count(a) - 1));
            }
        }
        if let BodyKind::Stream(_) = r.body {
            if !session.stream_dropped.load(Ordering::SeqCst) {
                leaks.push("body not released".into());
            }
        }
        drop(arc);
        if Arc::strong_count(&session) != 1 {
            leaks.push(format!("request data still referenced {} times", Arc::strong_count(&session) - 1));
        }
        let late = session.late();
        if !late.is_empty() {
            leaks.push(format!("activity after the future was dropped: {:?}", late));
        }
        st.count("release_checked");
        if !leaks.is_empty() {
            Self::record(st, e, case, k, r, vec!["C21"], leaks.join("; "), "release");
        }
        if o.mode == "sync" && x.res != Res::Stall {
            // same request through from_request_sync
            let b2 = match build_with(r, session.id) {
                Some(b) => b,
                None => return,
            };
            *pump.lock().unwrap() = Some(b2.session.clone());
            let req = b2.req;
            let life = b2.life.clone();
            let f = e.sync;
            busy.store(start.elapsed().as_millis() as usize + 1, Ordering::SeqCst);
            let res = {
                let _g = Enter::new(&b2.session);
                match catch_unwind(AssertUnwindSafe(|| f(req, nonce, &life))) {
                    Ok(r) => to_res(r),
                    Err(p) => Res::Panic(panic_text(&*p)),
                }
            };
            busy.store(0, Ordering::SeqCst);
            *pump.lock().unwrap() = None;
            st.count("sync_runs");
            let ev2 = spec_events(&b2.session.events());
            let ev1 = spec_events(&session.events());
            if res != got || ev1 != ev2 {
                Self::record(
                    st,
                    e,
                    case,
                    k,
                    r,
                    vec!["C18"],
                    format!(
                        "from_request{}: {} events {:?}; from_request_sync: {} events {:?}",
                        if use_shared { "_and_body" } else { "" },
                        got.text(),
                        ev1,
                        res.text(),
                        ev2
                    ),
                    "sync",
                );
            }
            b2.session.close();
            b2.session.clear_wakes();
            drop(life);
            if Arc::strong_count(&b2.life) != 1 {
                Self::record(st, e, case, k, r, vec!["C21", "C18"], "from_request_sync leaked the context".into(), "sync");
            }
        }
    }

    /// Concurrent decoding, including a race for the first use of every type.
    fn run_conc(&self, o: &Opts) -> Stats {
        let threads = 8;
        let mut total = Stats::default();
        let cases: Vec<CaseSpec> = self.entries.iter().map(|e| self.case(e.case)).collect();
        // requests per entry
        let mut reqs: Vec<Vec<Req>> = vec![];
        for (e, c) in self.entries.iter().zip(&cases) {
            let mut v = vec![];
            for k in 0..o.reqs {
                let mut rng = self.req_rng(o, e, k);
                for _ in 0..4 {
                    let r = gen_req(&mut rng, c, e.ti, &o.ro);
                    if build(&r).is_some() {
                        v.push(r);
                        break;
                    }
                }
            }
            reqs.push(v);
        }
        let barrier = Arc::new(Barrier::new(threads));
        let reqs = Arc::new(reqs);
        let cases = Arc::new(cases);
        let entries = Arc::new(self.entries.clone());
        type Obs = (usize, usize, Res, Vec<Ev>, bool);
        let mut handles = vec![];
        for t in 0..threads {
            let (barrier, reqs, entries) = (barrier.clone(), reqs.clone(), entries.clone());
            let o = o.clone();
            handles.push(std::thread::spawn(move || {
                let mut obs: Vec<Obs> = vec![];
                let mut st = Stats::default();
                let mut rng = Rng::derive(o.rseed, "conc", t as u64);
                let begin = |ei: usize, k: usize| -> Option<(usize, usize, Driven, Life)> {
                    let r = &reqs[ei][k];
                    // same id for every run, so that outcomes are comparable
                    let b = build_with(r, (ei * 1000 + k) as u64)?;
                    let (req, life) = (b.req, b.life.clone());
                    let f = entries[ei].owned;
                    let nonce = r.nonce;
                    let l = &life;
                    let d = Driven::start(&b.session, || f(req, nonce, l));
                    Some((ei, k, d, life))
                };
                // first use of every type, by all threads at once
                for ei in 0..entries.len() {
                    if reqs[ei].is_empty() {
                        continue;
                    }
                    let k = rng.below(reqs[ei].len());
                    barrier.wait();
                    if let Some((ei, k, mut d, _l)) = begin(ei, k) {
                        while d.step() {}
                        st.polls += d.polls;
                        st.count("first_use_races");
                        obs.push((ei, k, d.result(), spec_events(&d.s.events()), true));
                    }
                }
                // many decodes in flight, polled in random order
                let mut todo: Vec<(usize, usize)> = vec![];
                for ei in 0..entries.len() {
                    for k in 0..reqs[ei].len() {
                        todo.push((ei, k));
                    }
                }
                rng.shuffle(&mut todo);
                if t % 2 == 1 {
                    // mostly decodes of one type at a time
                    let place: Vec<usize> = (0..entries.len()).map(|_| rng.below(1 << 20)).collect();
                    todo.sort_by_key(|(ei, _)| place[*ei]);
                }
                let mut live: Vec<(usize, usize, Driven, Life)> = vec![];
                loop {
                    while live.len() < 6 {
                        match todo.pop() {
                            None => break,
                            Some((ei, k)) => {
                                if let Some(x) = begin(ei, k) {
                                    live.push(x);
                                }
                            }
                        }
                    }
                    if live.is_empty() {
                        break;
                    }
                    let i = rng.below(live.len());
                    if rng.pct(2) {
                        // abandon
                        let (_, _, mut d, _) = live.swap_remove(i);
                        d.drop_future();
                        st.count("abandoned");
                        continue;
                    }
                    if !live[i].2.step() {
                        let (ei, k, d, _l) = live.swap_remove(i);
                        st.polls += d.polls;
                        st.count("interleaved_runs");
                        obs.push((ei, k, d.result(), spec_events(&d.s.events()), false));
                    }
                }
                (obs, st)
            }));
        }
        let mut all: Vec<Obs> = vec![];
        for h in handles {
            match h.join() {
                Ok((obs, st)) => {
                    all.extend(obs);
                    total.merge(st);
                }
                Err(p) => total.mismatches.push(json!({"blame": ["C22", "C20"], "what": format!("worker thread panicked: {}", panic_text(&*p))})),
            }
        }
        // the outcome when decoded alone, twice
        let mut alone: BTreeMap<(usize, usize), (Res, Vec<Ev>)> = BTreeMap::new();
        for (ei, e) in self.entries.iter().enumerate() {
            for k in (0..reqs[ei].len()).rev() {
                for round in 0..2 {
                    let r = &reqs[ei][k];
                    let b = match build_with(r, (ei * 1000 + k) as u64) {
                        Some(b) => b,
                        None => continue,
                    };
                    let x = expect_for(&cases[ei], e.ti, r, &b);
                    let (req, life) = (b.req, b.life.clone());
                    let l = &life;
                    let mut d = Driven::start(&b.session, || (e.owned)(req, r.nonce, l));
                    while d.step() {}
                    let got = (d.result(), spec_events(&d.s.events()));
                    if round == 0 {
                        Self::note(&mut total, e, &x, r, &d);
                        alone.insert((ei, k), got.clone());
                    } else if alone[&(ei, k)] != got {
                        Self::record(
                            &mut total,
                            e,
                            &cases[ei],
                            k,
                            r,
                            vec!["C22"],
                            format!("decoded alone twice: {:?} then {:?}", alone[&(ei, k)], got),
                            "repeat",
                        );
                    }
                    if got.0 != x.res {
                        total.count("differs_from_model");
                    }
                }
            }
        }
        for (ei, k, res, ev, first) in all {
            total.runs += 1;
            total.events += ev.len();
            let a = match alone.get(&(ei, k)) {
                Some(a) => a,
                None => continue,
            };
            if a.0 != res || a.1 != ev {
                Self::record(
                    &mut total,
                    &self.entries[ei],
                    &cases[ei],
                    k,
                    &reqs[ei][k],
                    vec!["C22"],
                    format!(
                        "{}: {} {:?}; decoded alone later: {} {:?}",
                        if first { "first use race" } else { "concurrent" },
                        res.text(),
                        ev,
                        a.0.text(),
                        a.1
                    ),
                    "conc",
                );
            }
        }
        total
    }

    /// Few different requests for the same type, decoded again and again on all threads at once:
    /// a long history of one type, and as many chances as possible for two decodes to meet.
    fn run_hammer(&self, o: &Opts) -> Stats {
        let threads = 8;
        let mut total = Stats::default();
        for e in self.entries.iter() {
            let case = self.case(e.case);
            // requests for different parts of the type, with the outcome they have alone
            let mut reqs: Vec<(usize, Req, Res, Vec<Ev>)> = vec![];
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for k in 0..60 {
                let mut rng = self.req_rng(o, e, k);
                let r = gen_req(&mut rng, &case, e.ti, &o.ro);
                let b = match build_with(&r, k as u64) {
                    Some(b) => b,
                    None => continue,
                };
                let x = expect_for(&case, e.ti, &r, &b);
                if !seen.insert(format!("{} {}", x.route, x.res.class())) {
                    continue;
                }
                let (req, life) = (b.req, b.life.clone());
                let l = &life;
                let mut d = Driven::start(&b.session, || (e.owned)(req, r.nonce, l));
                while d.step() {}
                Self::note(&mut total, e, &x, &r, &d);
                let (res, ev) = (d.result(), spec_events(&d.s.events()));
                reqs.push((k, r, res, ev));
                if reqs.len() == 8 {
                    break;
                }
            }
            if reqs.len() < 2 {
                continue;
            }
            total.count("types_hammered");
            let reqs = Arc::new(reqs);
            let barrier = Arc::new(Barrier::new(threads));
            let mut handles = vec![];
            for t in 0..threads {
                let (reqs, barrier, e, o) = (reqs.clone(), barrier.clone(), e.clone(), o.clone());
                handles.push(std::thread::spawn(move || {
                    let mut rng = Rng::derive(o.rseed, "hammer", (t * 100_000) as u64 + e.case * 8 + e.ti as u64);
                    let mut bad: Vec<(usize, String)> = vec![];
                    let mut st = Stats::default();
                    barrier.wait();
                    // on half of the threads, several are under way at a time
                    let most = if t % 2 == 0 { 1 } else { 4 };
                    let mut live: Vec<(usize, Driven, Life)> = vec![];
                    let mut left = o.reqs;
                    while left > 0 || !live.is_empty() {
                        if left > 0 && live.len() < most {
                            left -= 1;
                            let i = rng.below(reqs.len());
                            let (k, r, _, _) = &reqs[i];
                            let b = match build_with(r, *k as u64) {
                                Some(b) => b,
                                None => continue,
                            };
                            let (req, life) = (b.req, b.life.clone());
                            let l = &life;
                            let d = Driven::start(&b.session, || (e.owned)(req, r.nonce, l));
                            live.push((i, d, life));
                            if live.len() > 1 {
                                st.count("several_of_a_type_under_way");
                            }
                            continue;
                        }
                        let at = rng.below(live.len());
                        if rng.pct(2) {
                            // abandoned in the middle
                            let (_, mut d, _) = live.swap_remove(at);
                            d.step();
                            d.drop_future();
                            st.count("abandoned");
                            continue;
                        }
                        if live[at].1.step() {
                            continue;
                        }
                        let (i, d, _life) = live.swap_remove(at);
                        let (_, _, res, ev) = &reqs[i];
                        let got = (d.result(), spec_events(&d.s.events()));
                        st.runs += 1;
                        st.events += got.1.len();
                        if (got.0 != *res || got.1 != *ev) && bad.len() < 3 {
                            bad.push((i, format!("repeated on {} threads: {} {:?}; decoded alone before: {} {:?}", threads, got.0.text(), got.1, res.text(), ev)));
                        }
                    }
                    (bad, st)
                }));
            }
            for h in handles {
                match h.join() {
                    Ok((bad, st)) => {
                        total.merge(st);
                        for (i, what) in bad {
                            let (k, r, _, _) = &reqs[i];
                            Self::record(&mut total, e, &case, *k, r, vec!["C22"], what, "hammer");
                        }
                    }
                    Err(p) => total.mismatches.push(json!({"blame": ["C22", "C20"], "what": format!("worker thread panicked: {}", panic_text(&*p))})),
                }
            }
        }
        total
    }
}
