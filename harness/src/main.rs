#![allow(dead_code)]
mod core;
mod audit;
mod crash;
mod db;
mod sqlmodel;
mod sqlgen;
mod hist;
mod c01;
mod c02;
mod c03;
mod c08;
mod c09;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod multi;
mod c04;
mod c07;
mod c05;
mod c06;
mod c10;
mod c17;
mod c18;
mod c19;
mod c20;
mod values;

use crate::core::*;

static PROPS: &[&'static dyn Property] = &[&c01::C01, &c02::C02, &c03::C03, &c04::C04, &c05::C05, &c06::C06, &c07::C07, &c08::C08, &c09::C09, &c10::C10, &c11::C11, &c12::C12, &c13::C13, &c14::C14, &c15::C15, &c16::C16, &c17::C17, &c18::C18, &c19::C19, &c20::C20];

fn find(id: &str) -> &'static dyn Property {
    match PROPS.iter().find(|p| p.id() == id) {
        Some(p) => *p,
        None => {
            eprintln!("no check for {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(std::env::var("AX_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let cases = args.get(4).and_then(|s| s.parse().ok());
            drive(find(&args[2]), seed, thorough, &root, cases)
        }
        Some("worker") => {
            worker_main(find(&args[2]), args[3].parse().unwrap(), args[4] == "thorough");
            0
        }
        Some("probe") => probe_main(find(&args[2]), &args[3]),
        Some("sql") => {
            db::repl(&args[2]);
            0
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            replay_file(find(v["property"].as_str().unwrap()), &v)
        }
        _ => {
            eprintln!("usage: axharness run <id> [quick|thorough] [cases] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
