#![allow(dead_code)]
mod spec; mod doc; mod model; mod dump; mod xmlr; mod xmlw; mod engine; mod gen; mod conv; mod hist; mod props; mod known;
use engine::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = |id: &str| -> &'static Prop { Box::leak(Box::new(props::all(id).unwrap_or_else(|| { eprintln!("no property {}",id); std::process::exit(2) }))) };
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = || std::env::var("VERIF_TIER").map_or(false,|t| t == "thorough");
    std::process::exit(match a.get(1).map(|s| s.as_str()) {
        Some("spec") => { println!("{}", serde_json::to_string_pretty(&spec::read_spec()).unwrap()); 0 }
        Some("run") => run(prop(&a[2]),seed(),thorough(),&known::known),
        Some("probes") => { install_panic_hook(); known::show(); 0 }
        Some("child") => child(prop(&a[2]),&Cfg { prop: a[2].clone(), seed: a[3].parse().unwrap(), thorough: a[4] == "thorough", journal: a[5].clone() }),
        Some("one") => one(prop(&a[2]),a[3].parse().unwrap(),a[4].parse().unwrap(),a[5].parse().unwrap(),&a[6]),
        Some("replay") => replay(prop(&a[2]),&a[3]),
        _ => { eprintln!("usage: pbt run|replay Cxx [file]"); 2 }
    })
}
