#![allow(deprecated)]
pub mod exec;
pub mod model;
pub mod reqgen;
pub mod run;
pub mod session;
pub mod svc;
pub mod tcp;
pub mod types;

pub use run::Registry;
pub use types::*;
pub use vspec;

/// Printable form of bytes.
pub fn show(b: &[u8]) -> String {
    if b.len() > 120 {
        format!("{}..({} bytes, h{:x})", show(&b[..60]), b.len(), vspec::rng::hash_str(&b.iter().map(|c| *c as char).collect::<String>()))
    } else {
        b.iter().map(|b| *b as char).flat_map(|c| c.escape_default()).collect()
    }
}
