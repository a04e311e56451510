//! Runs hyperdrive's derives in-process on the declarations read from a file (one JSON object per
//! line, see vdgen) and writes what each of them does.

use hyperderive_lib::verif_hooks;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).expect("argument");
    std::panic::set_hook(Box::new(|_| {}));
    let f = BufReader::new(std::fs::File::open(arg("--in")).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(arg("--out")).expect("output"));
    for line in f.lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let item = v["item"].as_str().unwrap();
        let ctx = v["derive"] == "ctx";
        let (verdict, msg) = match syn::parse_str::<syn::DeriveInput>(item) {
            Err(e) => ("unparsable", e.to_string()),
            Ok(d) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let t = if ctx { verif_hooks::request_context(&d) } else { verif_hooks::from_request(&d) };
                    t.to_string()
                }));
                match r {
                    Err(p) => (
                        "reject",
                        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                    ),
                    Ok(t) if t.contains("compile_error") => ("reject", t),
                    Ok(_) => ("accept", String::new()),
                }
            }
        };
        writeln!(out, "{}", json!({"id": v["id"], "verdict": verdict, "msg": msg})).unwrap();
    }
}
