use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Opts {
    pub seed: u64,
    pub n: usize,
    pub what: String,
}

#[derive(Default)]
pub struct Report {
    pub runs: usize,
    pub events: usize,
    pub distinct: BTreeSet<String>,
    pub classes: BTreeMap<String, usize>,
    pub counters: BTreeMap<String, usize>,
    pub samples: Vec<Value>,
    pub mismatches: Vec<Value>,
}

impl Report {
    pub fn count(&mut self, k: &str, n: usize) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn class(&mut self, k: &str) {
        *self.classes.entry(k.to_string()).or_insert(0) += 1;
        self.distinct.insert(k.to_string());
    }
    pub fn bad(&mut self, blame: &[&str], what: String) {
        self.bad_key(blame, what, None)
    }
    pub fn bad_key(&mut self, blame: &[&str], what: String, key: Option<&str>) {
        if self.mismatches.len() < 40 {
            let mut m = json!({"blame": blame, "what": what});
            if let Some(k) = key {
                m["key"] = json!(k);
            }
            self.mismatches.push(m);
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 {
            self.samples.push(v);
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "runs": self.runs, "events": self.events, "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "classes": self.classes, "counters": self.counters, "samples": self.samples,
            "mismatches": self.mismatches, "cmd": std::env::args().collect::<Vec<_>>(),
        })
    }
}
