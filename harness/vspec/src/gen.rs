//! Random generation of well-formed `FromRequest` types.

use crate::pat::{Pat, Seg};
use crate::dict::dict;
use crate::rng::Rng;
use crate::spec::*;

/// Weights steering the generator (percentages unless noted).
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub cases: usize,
    pub is_struct: u32,
    pub max_vars: usize,
    pub max_depth: usize,
    pub fallback: u32,
    pub routed_forward: u32,
    pub probe: u32,
    pub unrouted: u32,
    pub query: u32,
    pub body: u32,
    /// weights: Raw, Early, JsonVal, JsonS, JsonVec, FormPairs, FormS
    pub bodies: [u32; 7],
    pub max_guards: usize,
    pub share: u32,
    pub multi_route: u32,
    pub max_placeholders: usize,
    pub rest: u32,
    pub literal_hard: u32,
    pub ctx: u32,
    pub generic: u32,
    /// probability that a placeholder's type can fail
    pub strict: u32,
    pub get_head: u32,
    /// probability that GET+other methods share the same shape within one variant
    pub star: u32,
    /// probability that a variant takes nearly all methods at one of its paths
    pub all_methods: u32,
    /// also instantiate the service adapters
    pub services: bool,
}

pub fn base_profile(name: &'static str) -> Profile {
    Profile {
        name,
        cases: 60,
        is_struct: 12,
        max_vars: 5,
        max_depth: 2,
        fallback: 25,
        routed_forward: 12,
        probe: 50,
        unrouted: 15,
        query: 20,
        body: 25,
        bodies: [4, 1, 1, 1, 1, 1, 1],
        max_guards: 3,
        share: 35,
        multi_route: 30,
        max_placeholders: 3,
        rest: 20,
        literal_hard: 40,
        ctx: 35,
        generic: 15,
        strict: 50,
        get_head: 50,
        star: 4,
        all_methods: 1,
        services: false,
    }
}

pub fn profile(name: &str) -> Profile {
    let p = base_profile("mixed");
    match name {
        "mixed" => p,
        "routing" => Profile {
            name: "routing",
            max_vars: 8,
            body: 5,
            query: 5,
            max_guards: 1,
            literal_hard: 65,
            rest: 30,
            strict: 15,
            generic: 5,
            star: 10,
            max_depth: 1,
            fallback: 15,
            ..p
        },
        "segments" => Profile {
            name: "segments",
            max_placeholders: 5,
            multi_route: 60,
            share: 40,
            strict: 45,
            body: 10,
            query: 10,
            rest: 35,
            max_guards: 2,
            ..p
        },
        "methods" => Profile {
            name: "methods",
            all_methods: 4,
            share: 75,
            multi_route: 50,
            max_vars: 8,
            strict: 60,
            get_head: 65,
            body: 10,
            query: 8,
            max_guards: 1,
            fallback: 25,
            max_depth: 2,
            literal_hard: 15,
            ..p
        },
        "forward" => Profile {
            name: "forward",
            fallback: 75,
            routed_forward: 35,
            max_depth: 3,
            probe: 45,
            share: 50,
            max_guards: 2,
            literal_hard: 10,
            ..p
        },
        "query" => Profile {
            name: "query",
            query: 90,
            body: 15,
            max_guards: 1,
            generic: 25,
            ..p
        },
        "order" => Profile {
            name: "order",
            max_guards: 5,
            query: 45,
            body: 45,
            routed_forward: 25,
            strict: 50,
            ctx: 50,
            ..p
        },
        "view" => Profile {
            name: "view",
            max_guards: 5,
            ctx: 80,
            body: 40,
            bodies: [8, 2, 1, 1, 1, 1, 1],
            generic: 25,
            ..p
        },
        "body" => Profile {
            name: "body",
            body: 90,
            bodies: [1, 0, 3, 3, 2, 3, 3],
            query: 10,
            max_guards: 1,
            generic: 20,
            fallback: 15,
            ..p
        },
        "compile" => Profile {
            name: "compile",
            generic: 45,
            ctx: 50,
            query: 30,
            body: 40,
            unrouted: 40,
            max_guards: 3,
            ..p
        },
        "svc" => Profile {
            name: "svc",
            services: true,
            max_vars: 5,
            body: 40,
            bodies: [5, 1, 1, 1, 1, 1, 1],
            get_head: 60,
            max_guards: 2,
            ctx: 45,
            max_depth: 2,
            literal_hard: 15,
            ..p
        },
        other => panic!("unknown profile {}", other),
    }
}

pub const PROFILES: &[&str] = &[
    "mixed", "routing", "segments", "methods", "forward", "query", "order", "view", "body",
    "compile", "svc",
];

const EASY: &[&str] = &["a", "b", "ab", "user", "users", "me", "new", "x", "posts", "api"];
const HARD: &[&str] = &[
    "", "", "A", "Users", "x.y", "x-y", "a+b", "a*b", "(a)", "[a]", "^", "$", "a|b", "\\d", "\\",
    "%41", "%2F", "~", ".", "..", "...", "*", "**", "+", "?x", "&", "=", "a,b", ":id", "@", ";", "!", "'",
    "{x", "x}", "a{b}", "{}x", "0", "42", "a{1,2}", "#", "é", "a b", "[^a]", "(?i)a", ".*", "[a-z]+", "a$", "^a",
    "(", ")", "[", "]", "users.", "user$", "-", "_", "%", "%zz", "ab%20c", "(?x)", "a#b", "&&", "--", "[[:alpha:]]",
];

pub const FIELD_NAMES: &[&str] = &[
    "id", "x", "request", "body", "context", "captures", "index", "path", "method", "regex",
    "query", "future", "e", "caps", "methods", "variant", "var", "s", "self_", "r", "name",
    "raw_query", "tmp_request", "err", "a", "b", "val", "matches", "http", "hyper", "Ok_", "_0",
    "__", "_x", "T", "fld_x", "fld_id", "rest", "count", "v", "page", "user", "inner", "data",
    "hyperdrive", "std", "core", "our_methods", "inner_methods", "result", "f", "guard", "index_",
    "ROUTES", "REGEXES", "future_", "response", "status", "error", "from_query", "lit", "field",
];

const NEAR: &[&str] = &["id", "x", "user", "fld", "rest", "page_no", "v"];

/// Different field names which a careless comparison or a careless identifier scheme merges.
fn near_names(base: &str) -> Vec<String> {
    let mut cap = base.to_string();
    cap[..1].make_ascii_uppercase();
    vec![
        base.to_string(),
        format!("_{}", base),
        format!("__{}", base),
        format!("{}_", base),
        format!("{}__", base),
        cap,
        base.to_uppercase(),
        format!("{}1", base),
        format!("{}2", base),
        format!("{}10", base),
        format!("{}_1", base),
        format!("{}{}", base, base),
        format!("fld_{}", base),
        format!("fld_fld_{}", base),
        format!("{}_fld", base),
    ]
}

const VAR_NAMES: &[&str] = &[
    "Index", "User", "Post", "None", "Ok", "Some", "Err", "Variant", "Self_", "Method", "Error",
    "NotFound", "Head", "Get", "V1", "V2", "Login", "Rest", "Static", "Fallback", "Other", "Box",
    "String", "Vec", "Regex", "Guard", "Request", "Http", "a", "_Z",
];

const TYPE_NAMES: &[&str] = &[
    "Routes", "Route", "Api", "Inner", "Admin", "Nested", "Outer", "Web", "T0", "MyRequest",
    "Sub", "Site", "Main",
];

struct Gen<'a> {
    r: Rng,
    p: &'a Profile,
    types: Vec<TypeSpec>,
    /// number of variants of the outermost type, if it's to be a very large one
    giant: Option<usize>,
    /// whether the types form one long chain of `#[forward]`s
    deep: bool,
    /// whether the variants that forward have no guards
    bare: bool,
}

pub fn gen_case(seed: u64, p: &Profile, id: u64) -> CaseSpec {
    let mut g = Gen {
        r: Rng::derive(seed, p.name, id),
        p,
        types: vec![],
        giant: None,
        deep: false,
        bare: false,
    };
    // now and then an enum which is larger than any table, bit set or small integer it may be squeezed into
    if id % 60 == 17 {
        g.giant = Some(*g.r.pick(&[70, 70, 140, 140, 270]));
    }
    let ctx = if g.r.pct(p.ctx) {
        *g.r.pick(&[Ctx::A, Ctx::B, Ctx::B, Ctx::S])
    } else {
        Ctx::No
    };
    let mut depth = p.max_depth;
    if id % 60 == 41 || id % 60 == 11 {
        g.deep = true;
        depth = g.r.range(8, 14);
        // without guards, a type's future is made by that of the type around it right away
        if g.r.pct(60) {
            g.bare = true;
            depth = g.r.range(11, 20);
        }
    }
    g.gen_type(depth, ctx, &[]);
    CaseSpec { id, types: g.types }
}

impl<'a> Gen<'a> {
    fn literal(&mut self) -> String {
        if !dict().words.is_empty() && self.r.pct(3) {
            let w = dict().word(&mut self.r).unwrap();
            let w: String = w.chars().filter(|c| !"/{}".contains(*c) && !c.is_control()).take(60).collect();
            if !w.is_empty() {
                return w;
            }
        }
        if self.r.pct(self.p.literal_hard) {
            let l = self.r.pick(HARD).to_string();
            if self.r.pct(25) {
                format!("{}{}", self.r.pick(EASY), l)
            } else {
                l
            }
        } else {
            self.r.pick(EASY).to_string()
        }
    }

    /// A pattern using exactly the placeholders `sig`, in that order.
    fn pattern(&mut self, sig: &[String]) -> Pat {
        if sig.is_empty() && self.r.pct(self.p.star) {
            return Pat::Star;
        }
        let mut segs = vec![];
        let rest = !sig.is_empty() && self.r.pct(self.p.rest);
        for (i, name) in sig.iter().enumerate() {
            let nlit = self.r.weighted(&[4, 5, 1]);
            for _ in 0..nlit {
                segs.push(Seg::Lit(self.literal()));
            }
            if rest && i == sig.len() - 1 {
                segs.push(Seg::Rest(name.clone()));
            } else {
                segs.push(Seg::Ph(name.clone()));
            }
        }
        if !rest {
            let nlit = if segs.is_empty() {
                self.r.range(1, 3)
            } else {
                self.r.weighted(&[6, 3, 1])
            };
            for _ in 0..nlit {
                segs.push(Seg::Lit(self.literal()));
            }
            if self.r.pct(10) {
                segs.push(Seg::Lit(String::new()));
            }
        }
        // `{..}` literals must not look like placeholders
        for s in &mut segs {
            if let Seg::Lit(l) = s {
                if l.starts_with('{') && l.ends_with('}') {
                    *l = "q".into();
                }
            }
        }
        Pat::Segs(segs)
    }

    /// `shape` with placeholders renamed to `sig`.
    fn rename(pat: &Pat, sig: &[String]) -> Pat {
        match pat {
            Pat::Star => Pat::Star,
            Pat::Segs(s) => {
                let mut i = 0;
                Pat::Segs(
                    s.iter()
                        .map(|s| match s {
                            Seg::Lit(l) => Seg::Lit(l.clone()),
                            Seg::Ph(_) => {
                                i += 1;
                                Seg::Ph(sig[i - 1].clone())
                            }
                            Seg::Rest(_) => {
                                i += 1;
                                Seg::Rest(sig[i - 1].clone())
                            }
                        })
                        .collect(),
                )
            }
        }
    }

    /// Now and then, a number of things that is around one of those the tree under test has.
    fn size(&mut self, pct: u32, max: usize) -> Option<usize> {
        if dict().numbers.is_empty() || !self.r.pct(pct) {
            return None;
        }
        dict().number(&mut self.r, max)
    }

    fn method(&mut self) -> &'static str {
        if self.r.pct(self.p.get_head) {
            *self.r.pick(&["GET", "GET", "GET", "HEAD"])
        } else {
            *self.r.pick(METHODS)
        }
    }

    fn seg_ty(&mut self) -> SegTy {
        if self.r.pct(self.p.strict) {
            if self.r.pct(4) {
                SegTy::Never
            } else {
                *self.r.pick(&[
                    SegTy::U8,
                    SegTy::U32,
                    SegTy::I64,
                    SegTy::U128,
                    SegTy::Bool,
                    SegTy::Char,
                    SegTy::Ip,
                    SegTy::Even,
                    SegTy::NoDigit,
                    SegTy::Upper,
                ])
            }
        } else {
            *self.r.pick(&[SegTy::Str, SegTy::Str, SegTy::PathBuf])
        }
    }

    fn names(&mut self, n: usize) -> Vec<String> {
        let mut pool: Vec<_> = FIELD_NAMES.iter().map(|s| s.to_string()).collect();
        self.r.shuffle(&mut pool);
        if self.r.pct(30) {
            // names that are easily confused with each other come first
            let mut near = if self.r.pct(25) {
                let long = "a_rather_long_name_which_many_fields_have_in_common_up_to_the_end".to_string();
                vec![format!("{}1", long), format!("{}2", long), format!("{}_", long), format!("_{}", long), long]
            } else {
                near_names(*self.r.pick(NEAR))
            };
            near.sort();
            near.dedup();
            self.r.shuffle(&mut near);
            near.truncate(self.r.range(2, 7));
            pool.retain(|x| !near.contains(x));
            near.extend(pool);
            pool = near;
        }
        if !dict().words.is_empty() && self.r.pct(6) {
            for _ in 0..self.r.range(1, 3) {
                if let Some(w) = dict().ident(&mut self.r) {
                    if w.starts_with(|c: char| c.is_ascii_lowercase()) {
                        pool.retain(|x| *x != w);
                        pool.insert(0, w);
                    }
                }
            }
        }
        pool.truncate(n);
        pool
    }

    /// Tries to find routes for a variant with the placeholders `sig`.
    /// `hints` are routes of the enclosing types: their paths are worth reusing, but not taken.
    fn routes(&mut self, sig: &[String], taken: &[Route], hints: &[Route]) -> Vec<Route> {
        let want = if let Some(n) = self.size(4, 40) {
            n
        } else if self.r.pct(self.p.multi_route) {
            if self.r.pct(3) {
                self.r.range(8, 40)
            } else {
                self.r.range(2, 4)
            }
        } else {
            1
        };
        let mut out: Vec<Route> = vec![];
        for _ in 0..want {
            for _ in 0..25 {
                let all: Vec<&Route> = taken.iter().chain(out.iter()).collect();
                let fits = |r: &&&Route| r.pat.placeholders().len() == sig.len();
                let mut fitting: Vec<&Pat> = all.iter().copied().filter(|r| fits(&r)).map(|r| &r.pat).collect();
                let hinted: Vec<&Pat> = hints.iter().filter(|r| fits(&r)).map(|r| &r.pat).collect();
                if !hinted.is_empty() && self.r.pct(50) {
                    fitting = hinted;
                }
                let pat = if !fitting.is_empty() && self.r.pct(self.p.share) {
                    let i = self.r.below(fitting.len());
                    Self::rename(fitting[i], sig)
                } else {
                    let mut p = self.pattern(sig);
                    if self.giant.is_some() || want > 4 {
                        if let Pat::Segs(s) = &mut p {
                            let l = format!("n{}", self.r.below(1000));
                            s.insert(0, Seg::Lit(l));
                        }
                    }
                    p
                };
                let method = self.method();
                let shape = pat.shape();
                let ok = taken.iter().chain(out.iter()).all(|r| {
                    if r.pat.shape() == shape {
                        r.method != method
                    } else {
                        !r.pat.overlaps(&pat)
                    }
                });
                if ok {
                    out.push(Route { method, pat });
                    break;
                }
            }
        }
        // now and then nearly every method there is, at one path
        if !out.is_empty() && self.r.pct(self.p.all_methods) {
            let pat = out[0].pat.clone();
            let skip = self.r.below(4);
            let mut methods = METHODS.to_vec();
            self.r.shuffle(&mut methods);
            for &method in &methods[skip..] {
                let shape = pat.shape();
                if taken.iter().chain(out.iter()).all(|r| r.pat.shape() != shape || r.method != method) {
                    out.push(Route { method, pat: pat.clone() });
                }
            }
        }
        out
    }

    fn guard(&mut self, ctx: Ctx) -> GTy {
        GTy {
            kind: if self.r.pct(50) { GKind::Res } else { GKind::Fut },
            id: self.r.below(4) as u32,
            ctx: *self.r.pick(ctx.projections()),
        }
    }

    fn body(&mut self, ctx: Ctx) -> BTy {
        let c = *self.r.pick(ctx.projections());
        let b = self.p.bodies;
        match self.r.weighted(&b) {
            0 => BTy::Raw(c),
            1 => BTy::Early(c),
            2 => BTy::JsonVal,
            3 => BTy::JsonS,
            4 => *self.r.pick(&[BTy::JsonVec, BTy::JsonVec, BTy::JsonOpt, BTy::JsonStr, BTy::JsonEnum, BTy::JsonIgn]),
            5 => *self.r.pick(&[BTy::FormPairs, BTy::FormMap]),
            _ => *self.r.pick(&[BTy::FormS, BTy::FormS, BTy::FormUnit, BTy::FormNum]),
        }
    }

    fn forward(&mut self, depth: usize, ctx: Ctx, hints: &[Route]) -> FwTy {
        if depth == 0 || (!self.deep && self.r.pct(self.p.probe)) {
            FwTy::Probe
        } else {
            FwTy::Type(self.gen_type(depth - 1, ctx, hints))
        }
    }

    fn gen_type(&mut self, depth: usize, ctx: Ctx, hints: &[Route]) -> usize {
        let me = self.types.len();
        // reserve the slot (nested types come after)
        let base = *self.r.pick(TYPE_NAMES);
        self.types.push(TypeSpec {
            name: format!("{}{}", base, if me == 0 { String::new() } else { me.to_string() }),
            is_struct: false,
            ctx,
            params: 0,
            vars: vec![],
            noise: self.r.below(256) as u8,
        });
        let giant = if me == 0 { self.giant } else { None };
        let is_struct = giant.is_none() && self.r.pct(self.p.is_struct);
        let nvars = if is_struct {
            1
        } else if let Some(n) = giant {
            n
        } else if let Some(n) = self.size(if me == 0 { 10 } else { 0 }, 40) {
            n.max(1)
        } else if me == 0 && self.r.pct(3) {
            self.r.range(self.p.max_vars, VAR_NAMES.len() - 2)
        } else if self.deep {
            self.r.range(1, 3)
        } else {
            self.r.range(1, self.p.max_vars)
        };
        let fallback_at = if (self.deep && depth > 0) || self.r.pct(self.p.fallback) {
            Some(self.r.below(nvars))
        } else {
            None
        };
        let mut var_names: Vec<String> = VAR_NAMES.iter().map(|s| s.to_string()).collect();
        self.r.shuffle(&mut var_names);
        if let Some(mut w) = dict().ident(&mut self.r) {
            if self.r.pct(30) {
                w[..1].make_ascii_uppercase();
                if !var_names.contains(&w) && w != "Probe" {
                    var_names.insert(0, w);
                }
            }
        }
        for i in var_names.len()..nvars {
            var_names.push(format!("Var{}", i));
        }
        let mut taken: Vec<Route> = vec![];
        let mut vars: Vec<VarSpec> = vec![];
        for v in 0..nvars {
            let name = if is_struct {
                self.types[me].name.clone()
            } else {
                var_names[v].clone()
            };
            let noise = self.r.below(256) as u8;
            let is_fallback = fallback_at == Some(v);
            if !is_fallback && !is_struct && nvars > 1 && self.r.pct(self.p.unrouted) {
                let style = *self.r.pick(&[Style::Unit, Style::Named, Style::Tuple]);
                let n = if style == Style::Unit { 0 } else { self.r.range(1, 3) };
                let fields = self
                    .names(n)
                    .into_iter()
                    .map(|name| FieldSpec {
                        name,
                        role: Role::Inert,
                        param: None,
                        noise: 0,
                    })
                    .collect();
                vars.push(VarSpec {
                    name,
                    routes: vec![],
                    fields,
                    style,
                    noise,
                });
                continue;
            }
            let names = self.names(40);
            let nph = if is_fallback {
                0
            } else if let Some(n) = self.size(4, 36) {
                n
            } else if self.r.pct(2) {
                if self.r.pct(20) { self.r.range(15, 33) } else { self.r.range(self.p.max_placeholders, 14) }
            } else {
                let w: Vec<u32> = (0..=self.p.max_placeholders).map(|i| if i == 0 { 3 } else { 4 }).collect();
                self.r.weighted(&w)
            };
            let sig: Vec<String> = names[..nph].to_vec();
            let mut used = nph;
            let routes = if is_fallback {
                vec![]
            } else {
                self.routes(&sig, &taken, hints)
            };
            if routes.is_empty() && !is_fallback {
                continue;
            }
            taken.extend(routes.clone());
            let mut fields: Vec<FieldSpec> = vec![];
            let mut add = |fields: &mut Vec<FieldSpec>, role: Role, r: &mut Rng| {
                fields.push(FieldSpec {
                    name: names[used].clone(),
                    role,
                    param: None,
                    noise: r.below(256) as u8,
                });
                used += 1;
            };
            let alike = if self.r.pct(40) { Some(self.seg_ty()) } else { None };
            for s in &sig {
                let role = Role::Seg(match alike {
                    Some(ty) => ty,
                    None => self.seg_ty(),
                });
                fields.push(FieldSpec {
                    name: s.clone(),
                    role,
                    param: None,
                    noise: self.r.below(256) as u8,
                });
            }
            // the many variants of a very large type are mostly about routes
            let plain = giant.is_some() && !self.r.pct(8);
            if !is_fallback && !plain && self.r.pct(self.p.query) {
                let q = QTy {
                    base: *self.r.pick(QBASES),
                    opt: self.r.pct(35),
                };
                add(&mut fields, Role::Query(q), &mut self.r);
            }
            let ng = if let Some(n) = self.size(if plain { 0 } else { 6 }, 10) {
                n
            } else if plain || (self.bare && is_fallback) {
                0
            } else { self.r.below(self.p.max_guards + 1) };
            let alike = if self.r.pct(20) { Some(self.guard(ctx)) } else { None };
            for _ in 0..ng {
                let g = match alike {
                    Some(g) => g,
                    None => self.guard(ctx),
                };
                add(&mut fields, Role::Guard(g), &mut self.r);
            }
            if is_fallback || (!plain && self.r.pct(self.p.routed_forward)) {
                let f = if is_fallback {
                    // decided when the routes beside it are known
                    FwTy::Probe
                } else {
                    let own: Vec<Route> = vars_routes(&taken, hints, routes.len());
                    let depth = if self.deep { 0 } else { depth };
                    self.forward(depth, ctx, &own)
                };
                add(&mut fields, Role::Forward(f), &mut self.r);
            } else if !plain && self.r.pct(self.p.body) {
                let b = self.body(ctx);
                add(&mut fields, Role::Body(b), &mut self.r);
            }
            self.r.shuffle(&mut fields);
            let style = if fields.is_empty() && self.r.pct(60) {
                Style::Unit
            } else {
                Style::Named
            };
            vars.push(VarSpec {
                name,
                routes,
                fields,
                style,
                noise,
            });
        }
        if !vars.iter().any(|v| v.constructible()) {
            let name = if is_struct {
                self.types[me].name.clone()
            } else {
                "Zzz".to_string()
            };
            vars.push(VarSpec {
                name,
                routes: vec![Route {
                    method: "GET",
                    pat: Pat::Segs(vec![Seg::Lit(String::new())]),
                }],
                fields: vec![],
                style: Style::Unit,
                noise: 0,
            });
            if is_struct {
                let v = vars.pop().unwrap();
                vars = vec![v];
            }
        }
        if fallback_at.is_some() {
            let around: Vec<Route> = taken.iter().chain(hints).cloned().collect();
            let f = self.forward(depth, ctx, &around);
            for v in vars.iter_mut().filter(|v| v.routes.is_empty()) {
                for field in v.fields.iter_mut() {
                    if let Role::Forward(old) = &mut field.role {
                        *old = f.clone();
                    }
                }
            }
        }
        // Turn some fields' types into type parameters
        let mut params = 0;
        if self.r.pct(self.p.generic) {
            for v in vars.iter_mut().filter(|v| v.constructible()) {
                for f in v.fields.iter_mut() {
                    if params < 4 && self.r.pct(40) {
                        f.param = Some(params);
                        params += 1;
                    }
                }
            }
        }
        let t = &mut self.types[me];
        t.is_struct = is_struct;
        t.vars = vars;
        t.params = params;
        me
    }
}

/// The last `n` routes of `taken` (those of the variant at hand), else those of the enclosing types.
fn vars_routes(taken: &[Route], hints: &[Route], n: usize) -> Vec<Route> {
    if n == 0 {
        hints.to_vec()
    } else {
        taken[taken.len() - n..].to_vec()
    }
}
