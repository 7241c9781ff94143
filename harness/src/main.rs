//! Drives the real poreader and records what a user of it observes.
//!
//! porec record            documents (JSON lines) on stdin -> documents with "evs" on stdout
//! porec replay [--deliver]   behaviours exported by TLC on stdin; compares, prints mismatches
//!
//! A panic of the code under test is an event like any other ("panic").
mod doc;
mod ops;
mod replay;
mod script;
mod work;

#[global_allocator]
static ALLOCATOR: work::Counting = work::Counting;

use std::io::{self, BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("record") => record(),
        Some("replay") => replay::main(&args[2..]),
        _ => {
            eprintln!("usage: porec record|replay [--deliver]");
            std::process::exit(2);
        }
    }
}

fn record() {
    let lines: Vec<String> = io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
    let results = ops::parallel(lines, |line| {
        let v: serde_json::Value = serde_json::from_str(line).expect("bad input line");
        ops::perform(v, &poreader::PoParser::new()).to_string()
    });
    let out = io::stdout();
    let mut out = io::BufWriter::new(out.lock());
    for r in results {
        writeln!(out, "{}", r).unwrap();
    }
}
