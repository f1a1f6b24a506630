#![allow(invalid_runtime_symbol_definitions)]
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
mod args;
mod bins;
mod bpass_table;
mod ctx;
mod driver;
mod geometry;
mod over;
mod specs;
mod w_app;
mod w_cart;
mod w_comm;
mod w_types;
mod w_direct;
mod w_domain;
mod w_io;
mod w_params;
mod w_sweep;

use std::path::PathBuf;

use driver::*;
pub use subsweep::units;

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

fn workloads() -> Vec<Workload> {
    let mut v = vec![];
    v.extend(w_comm::workloads());
    v.extend(w_types::workloads());
    v.extend(w_sweep::workloads());
    v.extend(w_cart::workloads());
    v.extend(w_domain::workloads());
    v.extend(w_direct::workloads());
    v.extend(w_io::workloads());
    v.extend(w_params::workloads());
    v.extend(w_app::workloads());
    v
}

fn main() {
    let args = args::make_room();
    let all = workloads();
    let specs = specs::specs();
    let spec = |id: &str| specs.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    ctx::load_known(&verif.join("known-findings.txt"));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let tier = if args.iter().any(|a| a == "--thorough") { "thorough".into() } else { tier };
            let get = |k: &str| {
                args.iter()
                    .position(|a| a == k)
                    .map(|i| args[i + 1].parse::<f64>().unwrap())
            };
            let default_secs = if tier == "thorough" { 600.0 } else { 120.0 };
            let o = Options {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                secs: get("--secs").unwrap_or(default_secs),
                runs: get("--runs").map(|x| x as u64),
                workers: get("--workers").map(|x| x as u64).unwrap_or_else(|| {
                    std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4)
                }),
                tier,
                verif,
            };
            check(&all, spec(&args[2]), &o)
        }
        Some("worker") => {
            let f = |i: usize| args[i].parse::<u64>().unwrap();
            worker(&all, spec(&args[2]), f(3), f(4), f(5), f(6), args[7].parse().unwrap());
            0
        }
        Some("replay") => replay_file(&all, &PathBuf::from(&args[2]), args.iter().any(|a| a == "-v")),
        Some("one") => {
            // one <property> <workload> <seed> [-v]
            let run = all.iter().find(|w| w.name == args[3]).expect("workload").run;
            let v = args.iter().any(|a| a == "-v");
            let r = run_forked(run, &args[2], &Source::Seed(args[4].parse().unwrap()), v);
            for l in &r.log {
                println!("{l}");
            }
            println!("{}\nsteps {} hash {:x} evals {} stats {:?}", r.desc, r.steps, r.hash, r.evaluations, r.stats);
            for f in &r.fails {
                println!("FAIL {}: {}", f.kind, f.msg);
            }
            if !r.known.is_empty() {
                println!("KNOWN {:?}", r.known);
            }
            !r.fails.is_empty() as i32
        }
        Some("list") => {
            for s in &specs {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check|worker|replay|one|list ...");
            2
        }
    };
    std::process::exit(code);
}
