//! Property-based checks of siamesedb: worker, replay, shrinker.
mod case;
mod conv;
mod encode;
mod exec;
mod fsck;
mod gen;
mod interpose;
mod maps;
mod rng;
mod run;
mod shrink;
mod util;

use std::path::PathBuf;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "worker" => {
            let w = run::Worker {
                prop: arg(&args, "--prop").unwrap(),
                thorough: arg(&args, "--tier").map_or(false, |t| t == "thorough"),
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                shard: arg(&args, "--shard").and_then(|s| s.parse().ok()).unwrap_or(0),
                cases: arg(&args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(100),
                cap_s: arg(&args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(600),
                out: PathBuf::from(arg(&args, "--out").unwrap()),
            };
            w.run()
        }
        "replay" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            match case::Case::parse(&text) {
                Err(e) => {
                    eprintln!("cannot parse: {}", e);
                    2
                }
                Ok(c) => {
                    let r = run::run_forked(&c, 3);
                    match r {
                        run::Outcome::Ok(_) => {
                            println!("OK");
                            0
                        }
                        run::Outcome::Fail(m) => {
                            println!("FAIL {}", m);
                            1
                        }
                        run::Outcome::Harness(m) => {
                            println!("HARNESS {}", m);
                            2
                        }
                    }
                }
            }
        }
        "shrink" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let c = case::Case::parse(&text).unwrap();
            let budget = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(60);
            let (c, m) = shrink::shrink(c, budget);
            std::fs::write(&args[3], format!("# {}\n{}", m.replace('\n', " "), c.to_text())).unwrap();
            println!("{}", m);
            0
        }
        "gen" => {
            let prop = &args[2];
            let mut seed: u64 = args[3].parse().unwrap();
            if let (Some(shard), Some(i)) = (args.get(4), args.get(5)) {
                // the case of a worker
                seed = run::case_seed(prop, seed, shard.parse().unwrap(), i.parse().unwrap());
            }
            print!("{}", gen::gen_case(prop, cfg!(feature = "small"), false, seed).to_text());
            0
        }
        _ => {
            eprintln!("usage: worker | replay FILE | shrink IN OUT | gen PROP SEED");
            2
        }
    };
    std::process::exit(code);
}
