//! Emission of Rust source for generated types.

use crate::rng::Rng;
use crate::spec::*;
use std::fmt::Write;

fn noise_attr(n: u8, level: &str) -> &'static str {
    match (n % 12, level) {
        (0, _) => "/// docs `with` \"quotes\"\n",
        (1, _) => "#[allow(dead_code)]\n",
        (2, _) => "#[cfg(all())]\n",
        (3, _) => "#[allow(clippy::all)]\n",
        (4, "item") => "#[derive(Debug)]\n#[allow(unused)]\n",
        (5, _) => "#[doc = \"x\"]\n#[doc(hidden)]\n",
        (6, "variant") => "#[rustfmt::skip]\n",
        (7, "item") => "#[must_use]\n",
        _ => "",
    }
}

/// Source of the type declarations of `case` plus their `Dump` implementations.
pub fn emit_case(case: &CaseSpec) -> String {
    let mut o = String::new();
    for (i, _) in case.types.iter().enumerate() {
        emit_type(case, i, &mut o, true);
    }
    o
}

pub fn emit_decl(case: &CaseSpec, i: usize) -> String {
    let mut o = String::new();
    emit_type(case, i, &mut o, false);
    o
}

fn emit_type(case: &CaseSpec, ti: usize, o: &mut String, dump: bool) {
    let t = &case.types[ti];
    let mut order = Rng::derive(case.id, "emit", ti as u64);
    let params = (0..t.params).map(|p| format!("P{}", p)).collect::<Vec<_>>();
    let generics = if params.is_empty() {
        String::new()
    } else {
        format!("<{}>", params.join(", "))
    };
    let n = noise_attr(t.noise, "item");
    let n = if n.contains("Debug") && !dump { "" } else { n };
    // Debug cannot be derived for all field types; only keep it for plain types
    if !n.contains("Debug") {
        o.push_str(n);
    }
    o.push_str("#[derive(::hyperdrive::FromRequest)]\n");
    if t.ctx != Ctx::No {
        writeln!(o, "#[context({})]", t.ctx.path()).unwrap();
    } else if t.noise % 5 == 0 {
        writeln!(o, "#[context(::hyperdrive::NoContext)]").unwrap();
    }
    let fields = |v: &VarSpec, o: &mut String, vis: &str| {
        for f in &v.fields {
            o.push_str("        ");
            let pre = f.noise % 2 == 0;
            if pre {
                o.push_str(noise_attr(f.noise / 2, "field"));
            }
            match f.role {
                Role::Body(_) => o.push_str("#[body] "),
                Role::Query(_) => o.push_str("#[query_params] "),
                Role::Forward(_) => o.push_str("#[forward] "),
                _ => {}
            }
            if !pre {
                o.push_str(noise_attr(f.noise / 2, "field"));
            }
            let ty = match f.param {
                Some(p) => params[p].clone(),
                None => case.field_type_in(ti, f.role),
            };
            if v.style == Style::Tuple {
                writeln!(o, "{},", ty).unwrap();
            } else {
                writeln!(o, "{}{}: {},", vis, f.name, ty).unwrap();
            }
        }
    };
    let routes = |v: &VarSpec, o: &mut String, order: &mut Rng| {
        let _ = order;
        for (k, r) in v.routes.iter().enumerate() {
            if k == 1 {
                o.push_str(noise_attr(v.noise, "variant"));
            }
            writeln!(o, "    #[{}({:?})]", r.method.to_lowercase(), r.pat.text()).unwrap();
        }
        if v.routes.len() < 2 {
            o.push_str(noise_attr(v.noise, "variant"));
        }
    };
    if t.is_struct {
        let v = &t.vars[0];
        routes(v, o, &mut order);
        write!(o, "pub struct {}{}", t.name, generics).unwrap();
        if v.style == Style::Unit {
            o.push_str(";\n");
        } else {
            o.push_str(" {\n");
            fields(v, o, "pub ");
            o.push_str("}\n");
        }
    } else {
        writeln!(o, "pub enum {}{} {{", t.name, generics).unwrap();
        for v in &t.vars {
            routes(v, o, &mut order);
            write!(o, "    {}", v.name).unwrap();
            match v.style {
                Style::Unit => o.push_str(",\n"),
                Style::Named => {
                    o.push_str(" {\n");
                    fields(v, o, "");
                    o.push_str("    },\n");
                }
                Style::Tuple => {
                    o.push_str("(\n");
                    fields(v, o, "");
                    o.push_str("    ),\n");
                }
            }
        }
        o.push_str("}\n");
    }
    if !dump {
        return;
    }
    // Dump impl
    let bounds = params.iter().map(|p| format!("{}: ::vcore::Dump", p)).collect::<Vec<_>>();
    writeln!(
        o,
        "impl{} ::vcore::Dump for {}{} {{\n    fn dump(&self) -> ::vcore::Node {{\n        match self {{",
        if bounds.is_empty() { String::new() } else { format!("<{}>", bounds.join(", ")) },
        t.name,
        generics
    )
    .unwrap();
    for v in &t.vars {
        let path = if t.is_struct {
            t.name.clone()
        } else {
            format!("{}::{}", t.name, v.name)
        };
        match v.style {
            Style::Tuple => writeln!(
                o,
                "            {}(..) => ::vcore::Node::node({:?}, ::std::vec![]),",
                path, v.name
            )
            .unwrap(),
            _ => {
                let pat = v
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| format!("{}: b{}", f.name, i))
                    .collect::<Vec<_>>()
                    .join(", ");
                let items = v
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| format!("({:?}, ::vcore::Dump::dump(b{}))", f.name, i))
                    .collect::<Vec<_>>()
                    .join(", ");
                writeln!(
                    o,
                    "            {} {{ {} }} => ::vcore::Node::node({:?}, ::std::vec![{}]),",
                    path, pat, v.name, items
                )
                .unwrap()
            }
        }
    }
    o.push_str("        }\n    }\n}\n\n");
}
