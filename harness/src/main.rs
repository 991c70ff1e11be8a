mod alloc;
mod broker;
mod pure;
mod runner;

use runner::{Property, Tier};

fn properties() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(pure::properties());
    v.extend(broker::properties());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    runner::install_panic_hook();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let threads: usize = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let props = properties();
    let code = match args.first().map(String::as_str) {
        Some("check") => {
            let id = args.get(1).expect("property id");
            let tier = match args.get(2).map(String::as_str) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("no property {id}");
                std::process::exit(2);
            };
            runner::run_property(p, tier, seed, threads, scale, args.get(3).map(String::as_str))
        }
        Some("replay") => {
            let path = args.get(1).expect("replay file");
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
                    .expect("json");
            let p = props
                .iter()
                .find(|p| p.id == v["property"].as_str().unwrap())
                .expect("property");
            let part = p
                .parts
                .iter()
                .find(|q| q.name == v["part"].as_str().unwrap())
                .expect("part");
            match (part.replay)(&v["case"]).expect("case") {
                Ok(o) => {
                    println!("holds: {o:?}");
                    0
                }
                Err(f) => {
                    println!("[{}] {}", f.sig, f.msg);
                    println!("VIOLATION property={} replay={path}", p.id);
                    1
                }
            }
        }
        // sweep <scale>,... [property]...: for tools/mutate
        Some("sweep") => {
            let scales: Vec<f64> = args[1].split(',').map(|x| x.parse().expect("scale")).collect();
            runner::sweep(&props, seed, threads, &scales, &args[2..])
        }
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.parts.iter().map(|x| x.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("verif check <property> [quick|thorough] [part] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
