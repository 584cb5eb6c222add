mod engine;
mod fser;
mod model;
mod oracle;
mod props;
mod sys;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let env = engine::Env {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        known: engine::read_known(&root.join("KNOWN_FINDINGS.txt")),
        root,
        threads: std::env::var("NRF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
        scale: std::env::var("NRF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    engine::install_panic_hook();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id());
            }
            0
        }
        Some("run") => match props.iter().find(|p| p.id() == args[2]) {
            Some(p) => p.run(&env),
            None => {
                eprintln!("unknown property {}", args[2]);
                2
            }
        },
        Some("simplest") => {
            for p in &props {
                if args.len() < 3 || p.id() == args[2] {
                    println!("{} {}", p.id(), p.show_case(&[]));
                }
            }
            0
        }
        Some("silent") => {
            props::silent::child(&args[2]);
            std::process::exit(0);
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let p = props.iter().find(|p| p.id() == id).expect("unknown property");
            engine::watch_replay(id, engine::own_tid(), args[2].clone());
            match p.replay(&v["case"]) {
                Err(e) => {
                    eprintln!("unreadable case: {}", e);
                    2
                }
                Ok(verdict) => {
                    for (k, m) in &verdict.known {
                        println!("known finding {}: {}", k, m);
                    }
                    match verdict.fail {
                        Some(m) => {
                            println!("{}", m);
                            println!("VIOLATION property={} replay={}", id, args[2]);
                            1
                        }
                        None => {
                            println!("property {} holds on this case (non-trivial: {}, {:?})", id, verdict.nontrivial, verdict.classes);
                            0
                        }
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: nrfcheck list | run <id> | replay <file> | simplest [id]");
            2
        }
    };
    props::runs2::remove_scratch();
    std::process::exit(code);
}
