#![allow(dead_code)]
mod codes;
mod curve;
mod dex;
mod engine;
mod pm;
mod pool;
mod props;
mod setup;
mod world;
use engine::*;

fn props() -> Vec<Prop> {
    props::all()
}

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) || a.iter().any(|x| x == "--thorough");
    match a.get(1).map(|x| x.as_str()) {
        Some("list") => props().iter().for_each(|p| println!("{}", p.id)),
        Some("check") => {
            let id = a.get(2).expect("property id");
            let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).map(|x| x.as_str());
            let ps = props();
            let p = ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            });
            std::process::exit(run_prop(p, thorough, only));
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let ps = props();
            let p = ps.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("property");
            let scs = world::quiet(|| (p.scenarios)(v["thorough"].as_bool().unwrap_or(false))).unwrap_or_else(|e| {
                println!("reproduced: [set-up] {e}");
                std::process::exit(1)
            });
            for sc in scs {
                if sc.name() == v["scenario"].as_str().unwrap() {
                    match world::quiet(|| sc.replay(&v["ops"])).unwrap_or_else(|e| Err(Viol { key: "run".into(), msg: e })) {
                        Ok(log) => {
                            log.iter().for_each(|l| println!("{l}"));
                            println!("no violation");
                            std::process::exit(0)
                        }
                        Err(e) => {
                            println!("reproduced: [{}] {}", e.key, e.msg);
                            std::process::exit(1)
                        }
                    }
                }
            }
            std::process::exit(2)
        }
        _ => {
            eprintln!("usage: mc list | check ID [--thorough] [--only SCENARIO] | replay FILE");
            std::process::exit(2)
        }
    }
}
