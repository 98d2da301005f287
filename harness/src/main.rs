#![allow(dead_code)]
mod cluster;
mod data;
mod feed;
mod hist;
mod oracle;
mod place;
mod probe;
mod props;
mod runner;
mod scan;
mod sql;
mod tape;

use std::path::PathBuf;

fn root() -> PathBuf {
    std::env::var_os("VP_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    if args.get(1).is_some_and(|a| a != "check") {
        quiet_panics();
    }
    match args.get(1).map(|s| s.as_str()) {
        Some(cmd @ ("check" | "check-inner")) => {
            let id = args.get(2).expect("property id");
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough") || args.iter().any(|a| a == "--thorough");
            if cmd == "check" {
                std::process::exit(runner::supervise(p, seed, thorough, &root()));
            }
            quiet_panics();
            std::process::exit(runner::run_property(p, seed, thorough, &root()));
        }
        Some("replay") => {
            let file = args.get(2).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
            let p = props.iter().find(|p| v["property"] == p.id).expect("property");
            let part = p.parts.iter().find(|q| v["part"] == q.name).expect("part");
            let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            match runner::run_case(part.run, &tape) {
                runner::Res::Fail { sig, msg, desc } => {
                    println!("FAILS: {sig}\n{msg}\n{desc}");
                    std::process::exit(1)
                }
                r @ runner::Res::Hang { .. } => {
                    println!("{r:#?}");
                    std::process::exit(1)
                }
                r => println!("{r:#?}"),
            }
        }
        // vp case <ID> <part> <index> [seed]: runs one generated case
        Some("case") => {
            let p = props.iter().find(|p| p.id == args[2]).expect("property");
            let part = p.parts.iter().find(|q| q.name == args[3]).expect("part");
            let seed = args.get(5).and_then(|v| v.parse().ok()).unwrap_or(1);
            let tape = runner::gen_tape(p.id, part.name, seed, args[4].parse().unwrap(), p.tape_len);
            match runner::run_case(part.run, &tape) {
                runner::Res::Fail { sig, msg, desc } => println!("FAILS: {sig}\n{msg}\n{desc}"),
                runner::Res::Hang { desc, idle } => println!("HANG idle={idle}\n{desc}"),
                runner::Res::Ok(i) => println!("OK {}\n{:?}", i.desc, i.classes),
                runner::Res::Discard(d) => println!("DISCARD {d}"),
            }
        }
        // vp shrink <ID> <part> <index> [seed] [seconds]: shrinks one failing generated case
        Some("tape") => { let p = props.iter().find(|p| p.id == args[2]).expect("property"); let part = p.parts.iter().find(|q| q.name == args[3]).expect("part"); let tape: Vec<u32> = serde_json::from_str(&args[4]).unwrap(); println!("{:#?}", runner::run_case(part.run, &tape)); }
        Some("shrink") => {
            let p = props.iter().find(|p| p.id == args[2]).expect("property");
            let part = p.parts.iter().find(|q| q.name == args[3]).expect("part");
            let seed = args.get(5).and_then(|v| v.parse().ok()).unwrap_or(1);
            let secs = args.get(6).and_then(|v| v.parse().ok()).unwrap_or(120);
            let tape = runner::gen_tape(p.id, part.name, seed, args[4].parse().unwrap(), p.tape_len);
            let first = runner::run_case(part.run, &tape);
            let (tape, res, runs) = runner::shrink(part.run, tape, first, std::time::Duration::from_secs(secs), 100000);
            println!("{runs} runs, tape {tape:?}");
            if let runner::Res::Fail { sig, msg, desc } = res {
                println!("FAILS: {sig}\n{msg}\n{desc}");
            }
        }
        _ => {
            for p in &props {
                println!("{}", p.id);
            }
        }
    }
}

/// Panics are part of the explored behaviour; keep the output readable.
fn quiet_panics() {
    if std::env::var_os("VP_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
