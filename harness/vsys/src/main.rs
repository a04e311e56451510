//! Monitors for the parts of hyperdrive that need no generated types.

mod blocking;
mod catch;
mod crowd;
mod error;
mod history;
mod memory;
mod queue;
mod report;
mod serve;
mod slow;
mod sync;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let mut o = report::Opts {
        seed: arg("--seed").map_or(1, |s| s.parse().expect("seed")),
        n: arg("--n").map_or(1, |s| s.parse().expect("n")),
        what: arg("--what").unwrap_or_default(),
    };
    let out = arg("--out");
    if !std::env::args().any(|x| x == "--noisy") {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut r = report::Report::default();
    match o.what.clone().as_str() {
        "blocking" => blocking::run(&mut o, &mut r),
        "catch" => catch::run(&mut o, &mut r),
        "error" => error::run(&mut o, &mut r),
        "sync" => sync::run(&mut o, &mut r),
        "crowd" => crowd::run(&mut o, &mut r),
        "meeting" => crowd::threads(o.seed, o.n, &mut r),
        "history" => history::run(&mut o, &mut r),
        "serve" => serve::run(&mut o, &mut r),
        "memory" => memory::run(&mut o, &mut r),
        "slow" => slow::run(&mut o, &mut r),
        "queue" => queue::run(&mut o, &mut r),
        w => panic!("unknown --what {:?}", w),
    }
    let j = r.json();
    match out {
        Some(p) => std::fs::write(p, serde_json::to_string(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
    // threads that hang in a violated run must not keep the process alive
    std::process::exit(0);
}
