//! Deterministic simulation of fledger with fault injection.
#![allow(dead_code)]
mod alloc;
mod case;
mod exec;
mod links;
mod net;
mod os;
mod props;
mod rng;
mod runner;
mod sim;

use std::sync::OnceLock;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn props_all() -> &'static [case::Prop] {
    static P: OnceLock<Vec<case::Prop>> = OnceLock::new();
    P.get_or_init(props::all)
}

// The functions in the scenarios are not shared between threads.
unsafe impl Sync for case::Prop {}
unsafe impl Send for case::Prop {}

fn find(id: &str) -> &'static case::Prop {
    props_all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(3)
    })
}

fn env<T: std::str::FromStr>(name: &str, def: T) -> T {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(def)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<f64>().expect("number");
    let code = match arg(1) {
        "worker" => {
            runner::worker(
                find(arg(2)),
                arg(3).parse().unwrap(),
                arg(4).parse().unwrap(),
                arg(5).parse().unwrap(),
                num(6),
                arg(7).parse().unwrap(),
            );
            0
        }
        "exec" => {
            runner::exec_server(props_all());
            0
        }
        "run" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let def = if tier == "thorough" { 600. } else { 40. };
            runner::run(
                find(arg(2)),
                &runner::Opts {
                    seed: env("VERIF_SEED", 1),
                    tier,
                    secs: env("FLSIM_SECS", def),
                    workers: env("FLSIM_WORKERS", 8),
                    max: env("FLSIM_MAX", u64::MAX),
                    all: env("FLSIM_ALL", 0) == 1,
                },
            )
        }
        "replay" => runner::replay(props_all(), arg(2)),
        // One generated case with its trace
        "one" => {
            let c = case::make_case(find(arg(2)), env("VERIF_SEED", 1), arg(3).parse().unwrap());
            let p = "/tmp/flsim-one.json";
            std::fs::write(p, serde_json::json!({"case": c}).to_string()).unwrap();
            runner::replay(props_all(), p)
        }
        "det" => runner::determinism(find(arg(2)), env("VERIF_SEED", 1), num(3) as u64),
        "list" => {
            for p in props_all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("flsim run|replay|one|det|list ...");
            3
        }
    };
    std::process::exit(code);
}
