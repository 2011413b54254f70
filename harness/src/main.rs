//! d7check: property-based checks of the dash7 crate. See /verif/DESIGN.md.
mod alloc;
mod bits;
mod conv;
mod gen;
mod guided;
mod model;
mod props;
mod refcodec;
mod run;

use run::{Mode, Run};
use serde_json::Value;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    run::quiet_panics();
    let out = arg(&args, "--out").expect("--out");
    match args[0].as_str() {
        "run" => {
            let mut r = Run::new(&args[1], Mode::Explore);
            r.thorough = arg(&args, "--tier").as_deref() == Some("thorough");
            r.scale = arg(&args, "--scale").map_or(1.0, |s| s.parse().unwrap());
            r.seed = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
            let shard = |n: &str, d: u32| arg(&args, n).map_or(d, |s| s.parse().unwrap());
            r.shard = (shard("--shard", 0), shard("--shards", 1));
            if let Some(p) = arg(&args, "--last") {
                r.last_case_file(&p);
            }
            props::dispatch(&mut r);
            if let Some(p) = arg(&args, "--hashes") {
                let mut b = Vec::with_capacity(r.distinct.len() * 8);
                r.distinct.iter().for_each(|h| b.extend_from_slice(&h.to_le_bytes()));
                std::fs::write(p, b).unwrap();
            }
            std::fs::write(&out, serde_json::to_vec_pretty(&r.report()).unwrap()).unwrap();
        }
        "replay" => {
            let v: Value = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let mode = Mode::Replay { sub: v["sub"].as_str().unwrap().into(), case: v["case"].clone() };
            let mut r = Run::new(v["property"].as_str().unwrap(), mode);
            props::dispatch(&mut r);
            assert!(r.ran_replay, "no such sub-check");
            std::fs::write(&out, serde_json::to_vec_pretty(&r.report()).unwrap()).unwrap();
        }
        // cases for the checks that run elsewhere
        "draw" => {
            let mut r = Run::new(&args[1], Mode::Explore);
            r.seed = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
            r.shard.0 = arg(&args, "--shard").map_or(0, |s| s.parse().unwrap());
            let n = arg(&args, "--n").unwrap().parse().unwrap();
            std::fs::write(&out, props::draw(&r, n)).unwrap();
        }
        // evaluate the drawn cases of the cross-dialect check
        "eval" => {
            let lines = std::fs::read_to_string(&args[1]).unwrap();
            std::fs::write(&out, props::cross::eval(&lines)).unwrap();
        }
        "job" => std::fs::write(&out, props::runtime::job_answer(&std::fs::read(&args[1]).unwrap())).unwrap(),
        x => panic!("unknown mode {x}"),
    }
}
