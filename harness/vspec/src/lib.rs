pub mod dict;
pub mod emit;
pub mod gen;
pub mod pat;
pub mod rng;
pub mod spec;
pub mod item;
