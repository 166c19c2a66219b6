//! Drives wayfinder::build::Builder as told: `env` or `new` first, then
//! `if PATH`, `ic PATH` (a plain route file, read by the monitor's own
//! reader), `of PATH`, `os`, in the order given; then builds.  `then` begins
//! another build in the same process.
#![allow(dead_code)]

#[path = "../cfg.rs"]
mod cfg;
#[path = "../reader.rs"]
mod reader;
#[path = "../rng.rs"]
mod rng;

use wayfinder::build::Builder;

fn main() {
    let args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
    for args in args.split(|a| a == "then") {
        build(args);
    }
}

fn build(args: &[std::ffi::OsString]) {
    let mut b = match args[0].to_str() {
        Some("env") => Builder::from_env(),
        _ => Builder::new(),
    };
    let mut i = 1;
    while i < args.len() {
        let arg = args.get(i + 1).cloned().unwrap_or_default();
        b = match args[i].to_str().unwrap() {
            "if" => {
                i += 1;
                b.input_file(arg)
            }
            "ic" => {
                i += 1;
                let t = std::fs::read_to_string(&arg).expect("config for the monitor");
                b.input_config(cfg::lcfg(&reader::read(&t).expect("plain config")))
            }
            "of" => {
                i += 1;
                b.output_file(arg)
            }
            _ => b.output_stdout(),
        };
        i += 1;
    }
    b.build();
}
