//! `vdgen WHAT SEED N SHARD SHARDS`: declarations with the verdict the derives have to reach, one
//! JSON object per line. WHAT: pairs | sets | valid | faults.

use std::collections::BTreeSet;
use vspec::dict::dict;
use vspec::gen;
use vspec::item::*;
use vspec::pat::*;
use vspec::rng::Rng;
use vspec::spec::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Out {
    n: usize,
    shard: usize,
    shards: usize,
}

impl Out {
    /// Whether the next case is ours.
    fn mine(&mut self) -> bool {
        self.n += 1;
        self.n % self.shards == self.shard
    }
    fn put(&self, derive: &str, class: &str, want: bool, item: &str, routes: &[Route]) {
        let rs: Vec<String> = routes.iter().map(|r| format!("[{},{}]", js(r.method), js(&r.pat.text()))).collect();
        println!(
            "{{\"id\":{},\"derive\":{},\"class\":{},\"want\":{},\"item\":{},\"routes\":[{}]}}",
            self.n,
            js(derive),
            js(class),
            js(if want { "accept" } else { "reject" }),
            js(item),
            rs.join(",")
        );
    }
}

fn conflict(a: &Route, b: &Route) -> bool {
    if a.pat.shape() == b.pat.shape() {
        a.method == b.method
    } else {
        a.pat.overlaps(&b.pat)
    }
}

fn well_formed(rs: &[Route]) -> bool {
    (0..rs.len()).all(|i| (0..i).all(|j| !conflict(&rs[i], &rs[j])))
}

fn named(shape: &[u8], lits: &[&str], prefix: &str) -> Pat {
    Pat::Segs(
        shape
            .iter()
            .enumerate()
            .map(|(i, s)| match s {
                0 => Seg::Ph(format!("{}{}", prefix, i)),
                1 => Seg::Rest(format!("{}{}", prefix, i)),
                n => Seg::Lit(lits[*n as usize - 2].to_string()),
            })
            .collect(),
    )
}

/// Declares routes: each its own variant (or all on one, when the placeholders agree).
fn declare(rs: &[Route], groups: &[usize], is_struct: bool, extra: bool) -> Item {
    let mut vars: Vec<Var> = vec![];
    let n = groups.iter().max().map_or(0, |m| m + 1);
    for g in 0..n {
        let mine: Vec<&Route> = rs.iter().zip(groups).filter(|(_, k)| **k == g).map(|(r, _)| r).collect();
        if mine.is_empty() {
            continue;
        }
        let fields: Vec<Fld> = mine[0].pat.placeholders().iter().map(|p| fld(&[], p, "String")).collect();
        let mut v = var(&[], &format!("V{}", g), if fields.is_empty() { Style::Unit } else { Style::Named }, fields);
        v.attrs = mine.iter().map(|r| format!("#[{}({:?})]", r.method.to_lowercase(), r.pat.text())).collect();
        vars.push(v);
    }
    if extra {
        vars.insert(
            vars.len() / 2,
            var(&[], "Fallback", Style::Named, vec![fld(&["#[forward]"], "inner", "::vcore::Probe<::hyperdrive::NoContext>")]),
        );
    }
    Item {
        kw: if is_struct { "struct" } else { "enum" },
        attrs: vec![],
        name: "Routes".into(),
        generics: String::new(),
        wh: String::new(),
        vars,
    }
}

fn pairs(o: &mut Out, seed: u64, max: usize) {
    let lits = ["", "a", "b"];
    let mut shapes: Vec<Option<Vec<u8>>> = vec![None];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for c in &cur {
            for s in 0..5u8 {
                let mut x = c.clone();
                x.push(s);
                shapes.push(Some(x.clone()));
                if s != 1 {
                    next.push(x);
                }
            }
        }
        cur = next;
    }
    let mut k = 0u64;
    for a in &shapes {
        for b in &shapes {
            k += 1;
            if !o.mine() {
                continue;
            }
            let mut rng = Rng::derive(seed, "pairs", k);
            let mk = |s: &Option<Vec<u8>>, p: &str| s.as_ref().map_or(Pat::Star, |s| named(s, &lits, p));
            let same = rng.pct(30);
            let (pa, pb) = (mk(a, "x"), mk(b, if same { "x" } else { "y" }));
            let m = match rng.below(6) {
                0 => ("GET", "HEAD"),
                1 => ("HEAD", "GET"),
                2 => ("POST", "GET"),
                3 => ("HEAD", "HEAD"),
                4 => ("DELETE", "DELETE"),
                _ => ("GET", "GET"),
            };
            let mut variants = vec![m];
            if a == b {
                variants = vec![("GET", "HEAD"), ("GET", "GET"), ("PUT", "GET"), ("HEAD", "HEAD")];
            }
            for m in variants {
                let rs = vec![Route { method: m.0, pat: pa.clone() }, Route { method: m.1, pat: pb.clone() }];
                let together = pa.placeholders() == pb.placeholders() && rng.pct(50);
                let item = declare(&rs, if together { &[0, 0] } else { &[0, 1] }, together && rng.pct(30), false);
                let ok = well_formed(&rs);
                let class = format!(
                    "pair {} {}",
                    if ok { "disjoint" } else if a == b { "duplicate" } else { "overlapping" },
                    if m.0 == m.1 { "same method" } else { "other method" }
                );
                o.put("req", &class, ok, &item.text(), &rs);
            }
        }
    }
}

const LITS: &[&str] = &[
    "", "", "a", "a", "b", "A", "users", "a.", ".", "x+", "x*", "(", "[a]", "\\d", "\\", "^a", "a$", "a|b", ".*", "[^/]+", "([^a]+)", "%41", "{x", "x}", "*", "+", "?", "-", "é", "a b",
    "x0", "r0", "...", "{", "}", "}{", "#", "&&", "~", "(?i)a", "\\Q", "$", "^",
];

fn pattern(rng: &mut Rng, prefix: &str) -> Pat {
    if rng.pct(4) {
        return Pat::Star;
    }
    let n = rng.weighted(&[0, 3, 4, 4, 3, 2, 1]);
    Pat::Segs(
        (0..n)
            .map(|i| match rng.below(10) {
                0..=2 => Seg::Ph(format!("{}{}", prefix, i)),
                3 | 4 if i == n - 1 => Seg::Rest(format!("{}{}", prefix, i)),
                _ => Seg::Lit(lit(rng)),
            })
            .collect(),
    )
}

fn lit(rng: &mut Rng) -> String {
    if !dict().words.is_empty() && rng.pct(4) {
        let w = dict().word(rng).unwrap();
        let w: String = w.chars().filter(|c| !"/{}".contains(*c) && !c.is_control()).take(60).collect();
        if !w.is_empty() {
            return w;
        }
    }
    let l = if rng.pct(60) { rng.pick(&["a", "b", "", "ab"]).to_string() } else { rng.pick(LITS).to_string() };
    if l.contains('/') || (l.starts_with('{') && l.ends_with('}')) {
        "q".into()
    } else {
        l
    }
}

/// A pattern close to `p`, likely to overlap it.
fn mutate(p: &Pat, rng: &mut Rng, prefix: &str) -> Pat {
    let mut s = match p {
        Pat::Star => return if rng.pct(50) { Pat::Star } else { pattern(rng, prefix) },
        Pat::Segs(s) => s.clone(),
    };
    for _ in 0..rng.range(0, 2) {
        let i = rng.below(s.len());
        match rng.below(8) {
            0 | 1 => s[i] = Seg::Ph(String::new()),
            2 | 3 => s[i] = Seg::Lit(lit(rng)),
            4 => {
                s.truncate(i + 1);
                s[i] = Seg::Rest(String::new());
            }
            5 => {
                s.truncate(i + 1);
                s.push(Seg::Rest(String::new()));
                if let Seg::Rest(_) = s[i] {
                    s[i] = Seg::Ph(String::new());
                }
            }
            6 => {
                if let Some(Seg::Rest(_)) = s.last() {
                    s.pop();
                    s.push(Seg::Ph(String::new()));
                    s.push(Seg::Lit(lit(rng)));
                } else {
                    s.push(Seg::Lit(lit(rng)));
                }
            }
            _ => {
                if s.len() > 1 {
                    s.pop();
                }
            }
        }
    }
    let last = s.len() - 1;
    Pat::Segs(
        s.into_iter()
            .enumerate()
            .map(|(i, s)| match s {
                Seg::Lit(l) => Seg::Lit(l),
                Seg::Rest(_) if i == last => Seg::Rest(format!("{}{}", prefix, i)),
                _ => Seg::Ph(format!("{}{}", prefix, i)),
            })
            .collect(),
    )
}

/// Puts many segments in front of every pattern, mostly the same ones.
fn trunk(rs: &mut [Route], rng: &mut Rng) {
    let n = rng.range(6, 40);
    let segs: Vec<Seg> = (0..n).map(|i| if rng.pct(30) { Seg::Ph(format!("trunk{}", i)) } else { Seg::Lit(lit(rng)) }).collect();
    for r in rs {
        if let Pat::Segs(own) = &mut r.pat {
            let mut s = segs.clone();
            if rng.pct(15) {
                let i = rng.below(n);
                s[i] = if rng.pct(50) { Seg::Ph(format!("trunk{}", i)) } else { Seg::Lit(lit(rng)) };
            }
            s.extend(own.drain(..));
            *own = s;
        }
    }
}

fn sets(o: &mut Out, seed: u64, n: usize) {
    for k in 0..n {
        if !o.mine() {
            continue;
        }
        let mut rng = Rng::derive(seed, "sets", k as u64);
        // now and then a large one, or one of long patterns or segments that differ late
        let size = if rng.pct(3) { rng.range(10, 70) } else { rng.range(2, 9) };
        let methods = ["GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"];
        let mut rs: Vec<Route> = vec![];
        let want_ok = rng.pct(60);
        let mut tries = 0;
        while rs.len() < size && tries < 80 + 10 * size {
            tries += 1;
            let prefix = if rng.pct(40) { "x".to_string() } else { format!("{}", (b'p' + rng.below(6) as u8) as char) };
            let pat = if !rs.is_empty() && rng.pct(50) {
                let i = rng.below(rs.len());
                mutate(&rs[i].pat, &mut rng, &prefix)
            } else {
                pattern(&mut rng, &prefix)
            };
            let r = Route { method: *rng.pick(&methods), pat };
            let last = rs.len() + 1 == size;
            if rs.iter().all(|p| !conflict(p, &r)) || (!want_ok && (last || rng.pct(10))) {
                rs.push(r);
            }
        }
        rng.shuffle(&mut rs);
        if rng.pct(12) {
            trunk(&mut rs, &mut rng);
        }
        if rng.pct(5) {
            let long = "long-".repeat(rng.range(2, 60));
            for r in &mut rs {
                if let Pat::Segs(s) = &mut r.pat {
                    for seg in s {
                        if let Seg::Lit(l) = seg {
                            *l = format!("{}{}", long, l);
                        }
                    }
                }
            }
        }
        let ok = well_formed(&rs);
        let fallback = rng.pct(15);
        // several routes of one variant when their placeholders agree
        let mut groups: Vec<usize> = vec![];
        for (i, r) in rs.iter().enumerate() {
            let mut g = i;
            if rng.pct(50) {
                if let Some(j) = (0..i).find(|j| rs[*j].pat.placeholders() == r.pat.placeholders()) {
                    g = groups[j];
                }
            }
            groups.push(g);
        }
        let kind = if ok {
            "disjoint"
        } else if rs.iter().enumerate().any(|(i, r)| rs[..i].iter().any(|p| p.pat.shape() != r.pat.shape() && p.pat.overlaps(&r.pat))) {
            "overlapping"
        } else {
            "duplicate"
        };
        let class = format!("set {} of {}", kind, rs.len());
        let is_struct = groups.iter().all(|g| *g == 0) && rng.pct(50) && !fallback;
        o.put("req", &class, ok, &declare(&rs, &groups, is_struct, fallback).text(), &rs);
        // the verdict does not depend on the order
        let mut idx: Vec<usize> = (0..rs.len()).collect();
        rng.shuffle(&mut idx);
        let rs2: Vec<Route> = idx.iter().map(|i| rs[*i].clone()).collect();
        let solo: Vec<usize> = (0..rs.len()).collect();
        o.put("req", &class, ok, &declare(&rs2, &solo, false, fallback).text(), &rs2);
    }
}

fn cases(seed: u64, n: usize) -> impl Iterator<Item = (Item, Vec<Route>, &'static str)> {
    (0..n).flat_map(move |k| {
        let prof = gen::profile(gen::PROFILES[k % gen::PROFILES.len()]);
        let case = gen::gen_case(seed ^ 0x5eed, &prof, 100_000 + k as u64);
        let mut rng = Rng::derive(seed, "items", k as u64);
        (0..case.types.len())
            .map(|t| (Item::of(&case, t, &mut rng), case.types[t].vars.iter().flat_map(|v| v.routes.clone()).collect(), prof.name))
            .collect::<Vec<_>>()
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    let mut o = Out {
        n: 0,
        shard: a[4].parse().unwrap(),
        shards: a[5].parse().unwrap(),
    };
    match a[1].as_str() {
        "pairs" => pairs(&mut o, seed, n),
        "sets" => sets(&mut o, seed, n),
        "valid" => {
            for (item, rs, prof) in cases(seed, n) {
                if o.mine() {
                    assert!(well_formed(&rs));
                    o.put("req", &format!("valid {}", prof), true, &item.text(), &rs);
                }
            }
        }
        "faults" => {
            for (k, (item, _, _)) in cases(seed, n).enumerate() {
                if !o.mine() {
                    continue;
                }
                let mut rng = Rng::derive(seed, "faults", k as u64);
                let mut seen = BTreeSet::new();
                for (c, i) in faults(&item, &mut rng) {
                    let t = i.text();
                    if seen.insert(t.clone()) {
                        o.put("req", &c, false, &t, &[]);
                    }
                }
                for (c, t) in context_faults(&mut rng) {
                    o.put("ctx", &c, false, &t, &[]);
                }
            }
        }
        w => panic!("unknown {}", w),
    }
}
