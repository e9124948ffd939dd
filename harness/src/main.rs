mod engine;
mod exec;
mod expr;
mod gen;
mod model;
mod props;
mod util;

use std::path::PathBuf;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("NDV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let limit = std::env::var("NDV_TIME").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 7200 } else { 500u64 });
    let cx = engine::Ctx {
        bins: std::env::var("NDV_BINS").map(PathBuf::from).unwrap_or_else(|_| root.join("target/bins")),
        root,
        seed,
        thorough,
        scale: std::env::var("NDV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0),
        deadline: Instant::now() + Duration::from_secs(limit),
    };
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("NDV_DEBUG").is_ok() {
            eprintln!("{i}");
        }
    }));
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("property id");
            match props::all().into_iter().find(|p| p.id == id) {
                Some(p) => engine::check(&p, &cx, args.get(3).map(|x| x.as_str())),
                None => {
                    eprintln!("no such property: {id}");
                    4
                }
            }
        }
        Some("replay") => {
            let s = std::fs::read_to_string(args.get(2).expect("replay file")).expect("cannot read the replay file");
            let js: serde_json::Value = serde_json::from_str(&s).expect("not JSON");
            let id = js["property"].as_str().expect("property");
            let camp = js["campaign"].as_str().expect("campaign");
            let p = props::all().into_iter().find(|p| p.id == id).expect("no such property");
            let c = p.camps.iter().find(|c| c.name() == camp).expect("no such campaign");
            match c.replay(&cx, &js["case"]) {
                Ok(engine::Verdict::Fail(m)) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={}", args[2]);
                    1
                }
                Ok(v) => {
                    println!("{v:?}");
                    0
                }
                Err(e) => {
                    eprintln!("error: {e}");
                    3
                }
            }
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.camps.iter().map(|c| c.name()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: ndv check ID [CAMPAIGN] | ndv replay FILE | ndv list");
            4
        }
    };
    exec::cleanup();
    std::process::exit(code);
}
