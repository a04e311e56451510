//! `vgen emit SEED PROFILE CASES SHARDS OUTDIR NAME REPO VCORE [skip ids..]`: writes a cargo package
//! with the generated types of a profile, one source file per case, one binary per shard.

use std::collections::BTreeSet;
use std::fmt::Write;
use std::fs;
use vspec::{emit, gen};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    assert_eq!(a[1], "emit");
    let seed: u64 = a[2].parse().unwrap();
    let mut prof = gen::profile(&a[3]);
    prof.cases = a[4].parse().unwrap();
    let shards: usize = a[5].parse().unwrap();
    let out = &a[6];
    let (name, repo, vcore) = (&a[7], &a[8], &a[9]);
    let skip: BTreeSet<u64> = a[10..].iter().map(|s| s.parse().unwrap()).collect();
    let src = format!("{}/src", out);
    let _ = fs::remove_dir_all(&src);
    fs::create_dir_all(format!("{}/bin", src)).unwrap();
    fs::create_dir_all(format!("{}/cases", src)).unwrap();
    let mut mains = vec![String::new(); shards];
    let mut regs = vec![String::new(); shards];
    for id in 0..prof.cases as u64 {
        if skip.contains(&id) {
            continue;
        }
        let case = gen::gen_case(seed, &prof, id);
        let sh = (id as usize) % shards;
        fs::write(
            format!("{}/cases/case_{}.rs", src, id),
            format!("#![allow(warnings)]\n{}", emit::emit_case(&case)),
        )
        .unwrap();
        writeln!(mains[sh], "#[path = \"../cases/case_{0}.rs\"] mod case_{0};", id).unwrap();
        for (i, t) in case.types.iter().enumerate() {
            let p = case.type_path(i);
            // qualify the names of generated types
            let q = qualify(&p, &case, id);
            writeln!(regs[sh], "    r.{}::<{}, {}>({}, {});", if prof.services { "add_svc" } else { "add" }, q, t.ctx.path(), id, i).unwrap();
        }
    }
    for s in 0..shards {
        fs::write(
            format!("{}/bin/{}_{}.rs", src, name, s),
            format!(
                "#![allow(warnings)]\n{}\nfn main() {{\n    let mut r = ::vcore::Registry::new({}, {:?}, {}, {});\n{}    r.main();\n}}\n",
                mains[s], seed, prof.name, prof.cases, s, regs[s]
            ),
        )
        .unwrap();
    }
    fs::write(
        format!("{}/Cargo.toml", out),
        format!(
            "[package]\nname = {:?}\nversion = \"0.0.0\"\nedition = \"2018\"\npublish = false\n\n[workspace]\n\n[dependencies]\nhyperdrive = {{ path = {:?} }}\nvcore = {{ path = {:?} }}\n\n[profile.dev]\ndebug = false\nincremental = false\n",
            name, repo, vcore,
        ),
    )
    .unwrap();
}

/// Prefixes every identifier of `path` that names a type of the case with its module.
fn qualify(path: &str, case: &vspec::spec::CaseSpec, id: u64) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut prev = String::new();
    for c in path.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            if !word.is_empty() {
                if case.types.iter().any(|t| t.name == word) && !prev.ends_with("::") {
                    out.push_str(&format!("case_{}::", id));
                }
                out.push_str(&word);
                word.clear();
            }
            if c != '\0' {
                out.push(c);
            }
            prev = out.clone();
        }
    }
    out
}
