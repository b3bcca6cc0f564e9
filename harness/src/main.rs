//! Workloads and monitors that decide the properties of value-bag at runtime.

mod alloc;
mod bits;
mod ctx;
mod fmtspec;
mod gen;
mod hook;
mod json;
mod model;
mod obs;
mod prim;
mod props;
mod recserde;
mod recsval;
mod recvisit;
mod rng;
mod sink;
mod subject;
mod user;

use std::time::{Duration, Instant};

use ctx::{Ctx, Tier};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub fn config() -> &'static str {
    if cfg!(feature = "inline-str-l") && cfg!(feature = "inline-i128") {
        "all"
    } else if cfg!(feature = "inline-str-l") {
        "istrl"
    } else if cfg!(feature = "inline-str") {
        "istr"
    } else if cfg!(feature = "inline-i128") {
        "i128"
    } else {
        "base"
    }
}

fn main() {
    let mut prop = String::new();
    let mut seed = 0u64;
    let mut tier = Tier::Quick;
    let mut only = None;
    let mut shard = (0, 1);
    let mut trace = false;
    let mut budget = 36000.0f64;
    let mut scale = 1.0f64;
    let mut out = None;
    let mut hashes = None;

    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_else(|| usage(&a));
        match &*a {
            "--prop" => prop = v(),
            "--seed" => seed = v().parse().unwrap_or_else(|_| usage(&a)),
            "--tier" => {
                tier = match &*v() {
                    "tiny" => Tier::Tiny,
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    _ => usage(&a),
                }
            }
            "--only" => only = Some(v().parse().unwrap_or_else(|_| usage(&a))),
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').unwrap_or_else(|| usage(&a));
                shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "--trace" => trace = true,
            "--budget" => budget = v().parse().unwrap_or_else(|_| usage(&a)),
            "--scale" => scale = v().parse().unwrap_or_else(|_| usage(&a)),
            "--out" => out = Some(v()),
            "--hashes" => hashes = Some(v()),
            "--nothing" => std::process::exit(0),
            "--union" => union(args.collect()),
            _ => usage(&a),
        }
    }

    ctx::install_panic_hook();

    let started = Instant::now();
    let mut ctx = Ctx::new(&prop, seed, tier);
    ctx.only = only;
    ctx.shard = shard;
    ctx.trace = trace;
    ctx.scale = scale;
    if tier == Tier::Tiny {
        gen::without_large();
    }
    ctx.deadline = started + Duration::from_secs_f64(budget);

    let Some(rule) = props::run(&prop, &mut ctx) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };

    let json = ctx.to_json(rule, started.elapsed().as_secs_f64(), config());
    match out {
        Some(path) => {
            if let Err(e) = std::fs::write(&path, json) {
                eprintln!("{path}: {e}");
                std::process::exit(2);
            }
        }
        None => println!("{json}"),
    }
    if let Some(path) = hashes {
        let bytes: Vec<u8> = ctx.distinct_hashes().flat_map(|h| h.to_le_bytes()).collect();
        if let Err(e) = std::fs::write(&path, bytes) {
            eprintln!("{path}: {e}");
            std::process::exit(2);
        }
    }
    for v in &ctx.violations {
        eprintln!("violation in case {}: {}", v.case, v.what);
    }
    for e in &ctx.harness_errors {
        eprintln!("harness error: {e}");
    }
    std::process::exit(if !ctx.violations.is_empty() {
        1
    } else if !ctx.harness_errors.is_empty() {
        3
    } else {
        0
    });
}

/// The number of distinct hashes in several files.
fn union(files: Vec<String>) -> ! {
    let mut all: Vec<u64> = Vec::new();
    for f in files {
        let bytes = std::fs::read(&f).unwrap_or_else(|e| {
            eprintln!("{f}: {e}");
            std::process::exit(2)
        });
        all.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
    std::process::exit(0)
}

fn usage(a: &str) -> ! {
    eprintln!("bad or missing argument: {a}");
    std::process::exit(2)
}
