mod core;
mod guide;
mod lang;
mod opts;
mod props;
mod sheet;
mod src;
mod sut;

use serde_json::Value;
use std::path::PathBuf;
use std::time::Duration;
use std::{env, fs, process};

fn main() {
    let args: Vec<String> = env::args().collect();
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            process::exit(2)
        })
    };
    let root = PathBuf::from(env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    match args.get(1).map(String::as_str) {
        Some("run") => {
            let p = find(&args[2]);
            let tier = args.get(3).cloned().unwrap_or_else(|| "quick".to_string());
            let seed = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match core::no_panic(|| core::supervise(p.as_ref(), &core::Opts { root, tier, seed })) {
                Ok(code) => process::exit(code),
                Err(m) => {
                    eprintln!("the harness itself failed: {m}");
                    process::exit(2);
                }
            }
        }
        Some("shard") => {
            let p = find(&args[2]);
            let o = core::Opts { root, tier: args[3].clone(), seed: args[4].parse().unwrap() };
            core::shard_main(
                p.as_ref(), &o, args[5].parse().unwrap(), args[6].parse().unwrap(),
                &PathBuf::from(&args[7]), Duration::from_secs(args[8].parse().unwrap()),
            );
        }
        Some("one" | "replay") => {
            let p = find(&args[2]);
            let v: Value = serde_json::from_str(&fs::read_to_string(&args[3]).unwrap()).unwrap();
            let case = if v.get("case").is_some() { v["case"].clone() } else { v };
            process::exit(core::one_main(p.as_ref(), &case));
        }
        Some("show") => {
            // print some generated cases
            let p = find(&args[2]);
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(3);
            for i in 0..n {
                let mut s = src::Src::random(i + 1000);
                let c = p.gen(&mut s);
                println!("{}", serde_json::to_string_pretty(&p.show(&c)).unwrap());
            }
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id());
            }
        }
        _ => {
            eprintln!("usage: verif run|one|replay|show|list ...");
            process::exit(2);
        }
    }
}
