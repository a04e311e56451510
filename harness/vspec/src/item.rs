//! Items as text fragments, so that faults can be injected anywhere.

use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct Fld {
    pub attrs: Vec<String>,
    pub name: String,
    pub ty: String,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub attrs: Vec<String>,
    pub name: String,
    pub style: Style,
    pub fields: Vec<Fld>,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub kw: &'static str,
    pub attrs: Vec<String>,
    pub name: String,
    pub generics: String,
    pub wh: String,
    pub vars: Vec<Var>,
}

pub fn fld(attrs: &[&str], name: &str, ty: &str) -> Fld {
    Fld {
        attrs: attrs.iter().map(|s| s.to_string()).collect(),
        name: name.into(),
        ty: ty.into(),
    }
}

pub fn var(attrs: &[&str], name: &str, style: Style, fields: Vec<Fld>) -> Var {
    Var {
        attrs: attrs.iter().map(|s| s.to_string()).collect(),
        name: name.into(),
        style,
        fields,
    }
}

impl Item {
    pub fn is_enum(&self) -> bool {
        self.kw == "enum"
    }

    /// A type of a case; nested types are replaced by hand-written ones.
    pub fn of(case: &CaseSpec, ti: usize, rng: &mut Rng) -> Item {
        let t = &case.types[ti];
        let vars = t
            .vars
            .iter()
            .map(|v| {
                let mut attrs: Vec<String> = v.routes.iter().map(|r| format!("#[{}({:?})]", r.method.to_lowercase(), r.pat.text())).collect();
                noise(&mut attrs, rng, &["/// Docs.", "#[allow(dead_code)]", "#[rustfmt::skip]", "#[cfg(all())]", "#[serde(rename = \"x\")]"]);
                let fields = v
                    .fields
                    .iter()
                    .map(|f| {
                        let mut attrs: Vec<String> = match f.role {
                            Role::Body(_) => vec!["#[body]".into()],
                            Role::Query(_) => vec!["#[query_params]".into()],
                            Role::Forward(_) => vec!["#[forward]".into()],
                            _ => vec![],
                        };
                        noise(&mut attrs, rng, &["/// Docs.", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "#[serde(skip, default = \"a::b\")]"]);
                        let role = match f.role {
                            Role::Forward(FwTy::Type(_)) => Role::Forward(FwTy::Probe),
                            r => r,
                        };
                        Fld {
                            attrs,
                            name: f.name.clone(),
                            ty: match f.param {
                                Some(p) => format!("P{}", p),
                                None => case.field_type_in(ti, role),
                            },
                        }
                    })
                    .collect();
                Var {
                    attrs,
                    name: v.name.clone(),
                    style: v.style,
                    fields,
                }
            })
            .collect();
        let mut attrs = vec![];
        if t.ctx != Ctx::No {
            attrs.push(format!("#[context({})]", t.ctx.path()));
        }
        noise(&mut attrs, rng, &["/// Docs.", "#[allow(unused)]", "#[must_use]", "#[cfg(all())]"]);
        let params: Vec<String> = (0..t.params).map(|p| format!("P{}", p)).collect();
        Item {
            kw: if t.is_struct { "struct" } else { "enum" },
            attrs,
            name: t.name.clone(),
            generics: if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) },
            wh: String::new(),
            vars,
        }
    }

    pub fn text(&self) -> String {
        let mut o = String::new();
        for a in &self.attrs {
            o += a;
            o += "\n";
        }
        let fields = |v: &Var, vis: &str| -> String {
            let mut o = String::new();
            for f in &v.fields {
                for a in &f.attrs {
                    o += "        ";
                    o += a;
                    o += "\n";
                }
                match v.style {
                    Style::Tuple => o += &format!("        {}{},\n", vis, f.ty),
                    _ => o += &format!("        {}{}: {},\n", vis, f.name, f.ty),
                }
            }
            o
        };
        if self.kw != "enum" {
            let v = &self.vars[0];
            for a in &v.attrs {
                o += a;
                o += "\n";
            }
            o += &format!("pub {} {}{}", self.kw, self.name, self.generics);
            match v.style {
                Style::Unit if self.kw == "struct" => o += &format!("{};\n", self.wh),
                Style::Tuple => o += &format!("(\n{}){};\n", fields(v, "pub "), self.wh),
                _ => o += &format!("{} {{\n{}}}\n", self.wh, fields(v, "pub ")),
            }
            return o;
        }
        o += &format!("pub enum {}{}{} {{\n", self.name, self.generics, self.wh);
        for v in &self.vars {
            for a in &v.attrs {
                o += "    ";
                o += a;
                o += "\n";
            }
            o += "    ";
            o += &v.name;
            match v.style {
                Style::Unit => o += ",\n",
                Style::Tuple => o += &format!("(\n{}    ),\n", fields(v, "")),
                Style::Named => o += &format!(" {{\n{}    }},\n", fields(v, "")),
            }
        }
        o += "}\n";
        o
    }
}

fn noise(attrs: &mut Vec<String>, rng: &mut Rng, pool: &[&str]) {
    if rng.pct(30) {
        let at = rng.below(attrs.len() + 1);
        attrs.insert(at, rng.pick(pool).to_string());
    }
}

/// One fault of every class, each applied to a well-formed item at a random place.
pub fn faults(base: &Item, rng: &mut Rng) -> Vec<(String, Item)> {
    let mut out: Vec<(String, Item)> = vec![];
    let en = if base.is_enum() {
        base.clone()
    } else {
        Item {
            kw: "enum",
            attrs: vec![],
            name: "Routes".into(),
            generics: String::new(),
            wh: String::new(),
            vars: vec![
                var(&["#[get(\"/aa8\")]"], "Aa", Style::Unit, vec![]),
                var(&["#[get(\"/bb8/{id}\")]", "#[post(\"/cc8/{id}\")]"], "Bb", Style::Named, vec![fld(&[], "id", "u8")]),
            ],
        }
    };
    let st = if base.is_enum() {
        let v = base.vars.iter().find(|v| !v.attrs.iter().all(|a| !a.contains("(\"/")) && v.style != Style::Tuple);
        let mut v = match v {
            Some(v) => v.clone(),
            None => var(&["#[get(\"/aa8\")]"], "S", Style::Named, vec![]),
        };
        v.attrs.retain(|a| !a.contains("rustfmt") && !a.contains("serde"));
        Item {
            kw: "struct",
            attrs: base.attrs.clone(),
            name: base.name.clone(),
            generics: base.generics.clone(),
            wh: String::new(),
            vars: vec![v],
        }
    } else {
        base.clone()
    };
    // a new variant somewhere among the others, and the same as a struct
    macro_rules! ins {
        ($class:expr, $v:expr) => {{
            let v: Var = $v;
            let mut i = en.clone();
            let at = rng.below(i.vars.len() + 1);
            i.vars.insert(at, v.clone());
            out.push((format!("{}", $class), i));
            let i = Item {
                kw: "struct",
                attrs: vec![],
                name: "Single".into(),
                generics: String::new(),
                wh: String::new(),
                vars: vec![v],
            };
            out.push((format!("{} (struct)", $class), i));
        }};
    }
    let named = Style::Named;
    // unions
    out.push((
        "union".into(),
        Item {
            kw: "union",
            attrs: vec![],
            name: "Un".into(),
            generics: String::new(),
            wh: String::new(),
            vars: vec![var(&["#[get(\"/\")]"], "Un", named, vec![fld(&[], "a", "u8")])],
        },
    ));
    // tuple variants
    ins!("tuple variant", var(&["#[get(\"/tu9\")]"], "Tu9", Style::Tuple, vec![fld(&[], "", "::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext>")]));
    ins!("tuple variant with body", var(&["#[post(\"/tu9\")]"], "Tu9", Style::Tuple, vec![fld(&["#[body]"], "", "::vcore::RawBody<::hyperdrive::NoContext>")]));
    ins!("tuple variant with query", var(&["#[post(\"/tu9\")]"], "Tu9", Style::Tuple, vec![fld(&["#[query_params]"], "", "::std::vec::Vec<(String, String)>")]));
    ins!("tuple variant with forward", var(&["#[post(\"/tu9\")]"], "Tu9", Style::Tuple, vec![fld(&["#[forward]"], "", "::vcore::Probe<::hyperdrive::NoContext>")]));
    let mut plain = en.clone();
    for v in plain.vars.iter_mut() {
        // no fallback, so that the tuple variant is the only one
        for f in v.fields.iter_mut() {
            f.attrs.retain(|a| a != "#[forward]");
        }
        if !v.attrs.iter().any(|a| a.contains("(\"")) {
            v.fields.retain(|f| f.attrs.iter().all(|a| a != "#[body]" && a != "#[query_params]"));
        }
    }
    let at = rng.below(plain.vars.len() + 1);
    let mut p2 = plain.clone();
    p2.vars.insert(at, var(&[], "Tu9", Style::Tuple, vec![fld(&["#[forward]"], "", "::vcore::Probe<::hyperdrive::NoContext>")]));
    out.push(("tuple fallback".into(), p2));
    // placeholders
    for (c, p) in &[
        ("unknown placeholder", "/up9/{nope}"),
        ("unknown placeholder", "/up9/{id}/{Id}"),
        ("unknown placeholder", "/{id}/up9/{nope...}"),
        ("unknown placeholder", "/up9/{type}"),
        ("duplicate placeholder", "/dp9/{id}/{id}"),
        ("duplicate placeholder", "/dp9/{id}/x/{id...}"),
        ("duplicate placeholder", "/dp9/{id}/{b}/{id}"),
        ("non-final rest", "/nf9/{id...}/x"),
        ("non-final rest", "/nf9/{id...}/"),
        ("non-final rest", "/{id...}/nf9/{b}"),
        ("non-final rest", "/nf9/{id...}/{b...}"),
        ("non-final rest", "/nf9/{b}/{id...}//"),
        ("placeholder no identifier", "/pi9/{}"),
        ("placeholder no identifier", "/pi9/{_}"),
        ("placeholder no identifier", "/pi9/{0a}"),
        ("placeholder no identifier", "/pi9/{a-b}"),
        ("placeholder no identifier", "/pi9/{a b}"),
        ("placeholder no identifier", "/pi9/{ id}"),
        ("placeholder no identifier", "/pi9/{id }"),
        ("placeholder no identifier", "/pi9/{...}"),
        ("placeholder no identifier", "/pi9/{id..}"),
        ("placeholder no identifier", "/pi9/{id....}"),
        ("placeholder no identifier", "/pi9/{...id}"),
        ("placeholder no identifier", "/pi9/{id: u32}"),
        ("placeholder no identifier", "/pi9/{{id}}"),
        ("placeholder no identifier", "/pi9/{é}"),
        ("placeholder no identifier", "/pi9/{_...}"),
        ("no leading slash", ""),
        ("no leading slash", "a9"),
        ("no leading slash", "a9/b"),
        ("no leading slash", " /a9"),
        ("no leading slash", "**"),
        ("no leading slash", "*/"),
        ("no leading slash", "*a9"),
        ("no leading slash", "{id}"),
        ("no leading slash", "?x"),
        ("no leading slash", "http://a9/"),
    ] {
        let used: Vec<Fld> = ["id", "b"]
            .iter()
            .filter(|n| p.contains(&format!("{{{}", n)) || *c == "placeholder no identifier")
            .map(|n| fld(&[], n, "::vcore::Every"))
            .collect();
        let r = format!("#[{}({:?})]", rng.pick(&["get", "post", "put", "delete", "options", "patch", "trace", "connect", "head"]), p);
        let more = "#[post(\"/ok9\")]".to_string();
        let mut v = var(&[&r], "Ff9", named, used);
        if *c == "no leading slash" && *p != "{id}" && rng.pct(30) {
            v.attrs.insert(rng.below(2), more);
        }
        if *c == "placeholder no identifier" {
            // without the fields nothing but the path is at fault
            let mut bare = v.clone();
            bare.fields.retain(|f| p.contains("id") && f.name == "id");
            ins!(c, bare.clone());
            bare.fields.clear();
            ins!(c, bare);
        }
        ins!(c, v);
    }
    // different placeholders
    for rs in &[
        &["/df9/{a}", "/df8/{b}"][..],
        &["/df9/{a}/{b}", "/df8/{b}/{a}"],
        &["/df9/{a}/{b}", "/df8/{a}"],
        &["/df9/{a}", "/df8"],
        &["/df9", "/df8/{a}"],
        &["/df9/{a}", "/df8/{a}", "/df7/{b}"],
        &["/df9/{a}", "/df8/{a}", "/df7/{a}", "/df6"],
        &["/df9/{a}/{b...}", "/df8/{b}/{a...}"],
        &["*", "/df8/{a}"],
    ] {
        let m: Vec<String> = rs.iter().map(|p| format!("#[{}({:?})]", rng.pick(&["get", "post", "put"]), p)).collect();
        let m: Vec<&str> = m.iter().map(|s| s.as_str()).collect();
        ins!("different placeholders", var(&m, "Df9", named, vec![fld(&[], "a", "::vcore::Every"), fld(&[], "b", "::vcore::Every")]));
    }
    // misplaced attributes
    for a in &["#[body]", "#[forward]", "#[query_params]"] {
        ins!("misplaced on variant", var(&["#[get(\"/mi9\")]", a], "Mi9", named, vec![]));
        ins!("misplaced on variant", var(&[a, "#[get(\"/mi9\")]"], "Mi9", Style::Unit, vec![]));
    }
    for a in &["#[context(::hyperdrive::NoContext)]", "#[body]", "#[forward]", "#[query_params]"] {
        // on any variant, also one that is never created
        let mut i = en.clone();
        let k = rng.below(i.vars.len());
        let at = rng.below(i.vars[k].attrs.len() + 1);
        i.vars[k].attrs.insert(at, a.to_string());
        out.push(("misplaced on variant".into(), i));
    }
    for a in &["#[get(\"/mi9\")]", "#[patch(\"/mi9\")]", "#[body]", "#[forward]", "#[query_params]", "#[head(\"*\")]"] {
        let mut i = en.clone();
        let at = rng.below(i.attrs.len() + 1);
        i.attrs.insert(at, a.to_string());
        out.push(("misplaced on enum".into(), i));
    }
    for a in &["#[body]", "#[forward]", "#[query_params]"] {
        let mut i = st.clone();
        let at = rng.below(i.attrs.len() + 1);
        i.attrs.insert(at, a.to_string());
        out.push(("misplaced on struct".into(), i));
    }
    for a in &["#[get(\"/mi9\")]", "#[put(\"/mi9\")]", "#[context(::hyperdrive::NoContext)]", "#[get]", "#[trace]"] {
        let mut i = if rng.pct(70) { en.clone() } else { st.clone() };
        let withf: Vec<usize> = (0..i.vars.len()).filter(|k| !i.vars[*k].fields.is_empty()).collect();
        if withf.is_empty() {
            i.vars.push(var(&[], "Mi9", Style::Named, vec![fld(&[], "a9", "u8")]));
            if !i.is_enum() {
                continue;
            }
            let k = i.vars.len() - 1;
            i.vars[k].fields[0].attrs.push(a.to_string());
        } else {
            let k = *rng.pick(&withf);
            let f = rng.below(i.vars[k].fields.len());
            let at = rng.below(i.vars[k].fields[f].attrs.len() + 1);
            i.vars[k].fields[f].attrs.insert(at, a.to_string());
        }
        out.push(("misplaced on field".into(), i));
    }
    // malformed route attributes, alone or next to a proper one
    for a in &[
        "get", "get = \"/ma9\"", "get()", "get(\"/ma9\", \"/mb9\")", "get(ma9)", "get(5)", "get(path = \"/ma9\")", "post(b\"/ma9\")", "get(\"/ma9\", ma9)",
        "put('a')", "delete(true)", "head", "connect = \"*\"", "options()", "trace(1.5)", "patch(x(\"/ma9\"))", "get((\"/ma9\"))", "get(/ma9)", "get(\"/ma9\" \"/mb9\")",
    ] {
        let a = format!("#[{}]", a);
        let v = if rng.pct(50) { vec![a.as_str(), "#[get(\"/ok9\")]"] } else { vec!["#[get(\"/ok9\")]", "/// Docs.", a.as_str()] };
        ins!("malformed route", var(&v, "Ma9", Style::Unit, vec![]));
        ins!("malformed route", var(&[&a], "Ma9", named, vec![]));
    }
    for a in &["#[body = \"x\"]", "#[body(x)]", "#[body()]", "#[forward = \"x\"]", "#[forward(a, b)]", "#[forward()]", "#[query_params = 5]", "#[query_params(\"x\")]"] {
        let n = a[2..].split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string();
        let ty = match n.as_str() {
            "body" => "::vcore::RawBody<::hyperdrive::NoContext>",
            "forward" => "::vcore::Probe<::hyperdrive::NoContext>",
            _ => "::std::vec::Vec<(String, String)>",
        };
        ins!("malformed role", var(&["#[post(\"/mr9\")]"], "Mr9", named, vec![fld(&[a], "x9", ty)]));
        // on the field of a variant that is never created
        let mut i = en.clone();
        let at = rng.below(i.vars.len() + 1);
        i.vars.insert(at, var(&[], "Mr9", named, vec![fld(&[a], "x9", "u8")]));
        out.push(("malformed role, no route".into(), i));
    }
    for a in &["#[context]", "#[context = \"X\"]", "#[context()]", "#[context(::hyperdrive::NoContext, ::hyperdrive::NoContext)]", "#[context(5)]", "#[context(\"X\")]", "#[context{}]"] {
        let mut i = if rng.pct(50) { en.clone() } else { st.clone() };
        i.attrs.retain(|a| !a.starts_with("#[context"));
        let at = rng.below(i.attrs.len() + 1);
        i.attrs.insert(at, a.to_string());
        out.push(("malformed context".into(), i));
    }
    // repeated
    for base in &[&en, &st] {
        let mut i = (*base).clone();
        let c = i.attrs.iter().find(|a| a.starts_with("#[context")).cloned();
        for _ in 0..if c.is_some() { 1 } else { 2 } {
            let at = rng.below(i.attrs.len() + 1);
            i.attrs.insert(at, c.clone().unwrap_or_else(|| "#[context(::hyperdrive::NoContext)]".into()));
        }
        out.push(("repeated context".into(), i));
    }
    for (a, ty) in &[
        ("#[body]", "::vcore::RawBody<::hyperdrive::NoContext>"),
        ("#[forward]", "::vcore::Probe<::hyperdrive::NoContext>"),
        ("#[query_params]", "::std::vec::Vec<(String, String)>"),
    ] {
        let g = "::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext>";
        ins!(
            format!("repeated {} on two fields", a),
            var(&["#[post(\"/re9\")]"], "Re9", named, vec![fld(&[a], "x9", ty), fld(&[], "g9", g), fld(&[a], "y9", ty)])
        );
        ins!(format!("repeated {} on a field", a), var(&["#[post(\"/re9\")]"], "Re9", named, vec![fld(&[a, "/// Docs.", a], "x9", ty)]));
        ins!(
            format!("{} on a placeholder field", a),
            var(&["#[post(\"/re9/{x9}\")]"], "Re9", named, vec![fld(&[], "g9", g), fld(&[a], "x9", "::vcore::Every")])
        );
    }
    for a in &["#[body]", "#[forward]", "#[query_params]"] {
        // wherever the field stands, and for each kind of placeholder
        for route in &["#[post(\"/re9/{x9}\")]", "#[post(\"/{x9...}\")]", "#[get(\"/{y9}/re9/{x9}\")]"] {
            let mut fields = vec![fld(&[a], "x9", "::vcore::Every")];
            if route.contains("y9") {
                fields.insert(rng.below(2), fld(&[], "y9", "String"));
            }
            ins!(format!("{} on a placeholder field", a), var(&[route], "Re9", named, fields));
        }
        ins!(format!("repeated {} on two fields", a), var(&["#[post(\"/re9\")]"], "Re9", named, vec![fld(&[a], "x9", "::vcore::Every"), fld(&[a], "y9", "::vcore::Every")]));
    }
    for (a, b) in &[("#[body]", "#[query_params]"), ("#[query_params]", "#[forward]"), ("#[forward]", "#[body]"), ("#[forward]", "#[query_params]"), ("#[body]", "#[forward]")] {
        ins!("two roles on a field", var(&["#[post(\"/tr9\")]"], "Tr9", named, vec![fld(&[a, b], "x9", "::vcore::Every")]));
        ins!("two roles on a field", var(&["#[post(\"/tr9\")]"], "Tr9", named, vec![fld(&[], "g9", "::vcore::Every"), fld(&[b, "/// Docs.", a], "x9", "::vcore::Every")]));
    }
    // body and forward
    let b = fld(&["#[body]"], "x9", "::vcore::RawBody<::hyperdrive::NoContext>");
    let f = fld(&["#[forward]"], "y9", "::vcore::Probe<::hyperdrive::NoContext>");
    let g = fld(&[], "g9", "::vcore::GRes<::vcore::K0, ::hyperdrive::NoContext>");
    let q = fld(&["#[query_params]"], "q9", "::std::vec::Vec<(String, String)>");
    ins!("body and forward", var(&["#[post(\"/bf9\")]"], "Bf9", named, vec![b.clone(), g.clone(), f.clone()]));
    ins!("body and forward", var(&["#[post(\"/bf9\")]"], "Bf9", named, vec![f.clone(), q.clone(), b.clone()]));
    {
        let mut i = plain.clone();
        let at = rng.below(i.vars.len() + 1);
        i.vars.insert(at, var(&[], "Bf9", named, vec![f.clone(), b.clone()]));
        out.push(("body and forward, no route".into(), i));
    }
    // body or query without route
    for x in &[&b, &q] {
        let mut i = en.clone();
        let at = rng.below(i.vars.len() + 1);
        i.vars.insert(at, var(&[], "Nr9", named, vec![g.clone(), (*x).clone()]));
        out.push((format!("{} without route", x.attrs[0]), i));
        let mut i = plain.clone();
        let at = rng.below(i.vars.len() + 1);
        i.vars.insert(at, var(&[], "Nr9", named, vec![f.clone(), (*x).clone()]));
        out.push((format!("{} in a fallback", x.attrs[0]), i));
        out.push((
            format!("{} without route (struct)", x.attrs[0]),
            Item {
                kw: "struct",
                attrs: vec![],
                name: "Single".into(),
                generics: String::new(),
                wh: String::new(),
                vars: vec![var(&[], "Single", named, vec![f.clone(), (*x).clone()])],
            },
        ));
    }
    // several fallbacks
    {
        let mut i = plain.clone();
        for n in &["Fb8", "Fb9"] {
            let at = rng.below(i.vars.len() + 1);
            let mut v = var(&[], n, named, vec![f.clone()]);
            if rng.pct(40) {
                v.fields.insert(rng.below(2), g.clone());
            }
            i.vars.insert(at, v);
        }
        out.push(("several fallbacks".into(), i.clone()));
        let at = rng.below(i.vars.len() + 1);
        i.vars.insert(at, var(&[], "Fb7", named, vec![f.clone()]));
        out.push(("several fallbacks".into(), i));
    }
    // nothing constructible
    for vs in vec![
        vec![],
        vec![var(&[], "A", Style::Unit, vec![])],
        vec![var(&["/// Docs."], "A", named, vec![fld(&[], "x", "u8")]), var(&[], "B", Style::Tuple, vec![fld(&[], "", "u8")])],
        vec![var(&["#[allow(dead_code)]"], "A", named, vec![]), var(&[], "B", Style::Unit, vec![]), var(&[], "C", Style::Unit, vec![])],
    ] {
        out.push((
            "nothing constructible".into(),
            Item {
                kw: "enum",
                attrs: en.attrs.clone(),
                name: "Routes".into(),
                generics: String::new(),
                wh: String::new(),
                vars: vs,
            },
        ));
    }
    for v in vec![var(&[], "S", Style::Unit, vec![]), var(&["/// Docs."], "S", named, vec![]), var(&[], "S", named, vec![g.clone()])] {
        out.push((
            "nothing constructible (struct)".into(),
            Item {
                kw: "struct",
                attrs: vec![],
                name: "S".into(),
                generics: String::new(),
                wh: String::new(),
                vars: vec![v],
            },
        ));
    }
    out
}

/// Context types the derive has to reject (or whose code must not compile).
pub fn context_faults(rng: &mut Rng) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut add = |c: &str, t: String| out.push((c.to_string(), t));
    let other = *rng.pick(&["b: u16", "pub b: String", "#[as_ref] b: Vec<u8>", "#[as_ref] b: u16"]);
    for a in &["#[as_ref(x)]", "#[as_ref = \"x\"]", "#[as_ref()]", "#[as_ref(\"x\")]", "#[as_ref]\n#[as_ref]", "#[as_ref] /// Docs.\n #[as_ref]", "#[as_ref]\n#[as_ref(x)]"] {
        add("as_ref malformed or repeated", format!("pub struct C {{ {} a: u8, {} }}", a, other));
        add("as_ref malformed or repeated", format!("pub struct C {{ {}, {} a: u8 }}", other, a));
        add("as_ref malformed or repeated", format!("pub struct C(u32, {} u8);", a));
        add("as_ref malformed or repeated", format!("pub struct C<T>(Vec<T>, {} u8, T);", a));
    }
    add("as_ref on an item", format!("#[as_ref] pub struct C {{ a: u8, {} }}", other));
    add("as_ref on an item", "#[as_ref] pub struct C;".into());
    add("as_ref on an item", "#[as_ref] pub enum C { A, B(u8) }".into());
    add("as_ref in an enum", "pub enum C { A, #[as_ref] B(u8) }".into());
    add("as_ref in an enum", "pub enum C { A, B(#[as_ref] u8) }".into());
    add("as_ref in an enum", "pub enum C { A, B { x: u16, #[as_ref] y: u8 }, D }".into());
    add("as_ref in an enum", "pub enum C<T> { A(T), B { #[as_ref] y: Vec<u8> } }".into());
    add("as_ref in an enum", "pub enum C { A, B(u8, #[as_ref(x)] u8) }".into());
    add("as_ref fields of the same type", format!("pub struct C {{ #[as_ref] a: u8, #[as_ref] c: u8, {} }}", other));
    add("as_ref fields of the same type", "pub struct C(#[as_ref] String, u8, #[as_ref] std::string::String);".into());
    out
}
