//! Conformance harness for enumset: makes calls on the real crate and writes
//! down what they did, one JSON object per line, for validation against the
//! TLA+ specification; or makes the calls of behaviours generated from the
//! specification and compares.
#[cfg(feature = "conv")]
pub mod conv;
pub mod fmts;
pub mod gen;
pub mod mach;
pub mod op;
pub mod replay;
#[cfg(feature = "ser")]
pub mod ser;
pub mod shape;
#[cfg(feature = "ser")]
pub mod tok;
use mach::Machine;
use std::collections::HashMap;

/// The program, given the enums it was compiled with.
pub fn main(machines: fn() -> Vec<Box<dyn Machine>>) {
    if std::env::var_os("HARNESS_DEBUG").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut args: HashMap<String, String> = HashMap::new();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    for kv in argv.chunks(2) {
        args.insert(kv[0].trim_start_matches("--").to_string(), kv[1].clone());
    }
    let get = |k: &str| args.get(k).cloned();
    let num = |k: &str, d: u64| get(k).map_or(d, |x| x.parse().unwrap());
    match get("cmd").as_deref() {
        Some("record") => gen::record(
            machines(),
            &get("prop").unwrap(),
            &get("out").unwrap(),
            num("seed", 1),
            num("scale", 10),
            &get("skip").unwrap_or_default(),
        ),
        Some("meta") => {
            std::fs::write(get("out").unwrap(), gen::meta(&get("prop").unwrap()) + "\n").unwrap()
        }
        Some("replay") => replay::replay(
            machines(),
            &get("prop").unwrap(),
            &get("cases").unwrap(),
            &get("out").unwrap(),
            num("seed", 1),
        ),
        Some("exec") => replay::exec(machines(), &get("in").unwrap(), &get("out").unwrap()),
        Some("list") => {
            for m in machines() {
                println!("{}", m.info().name);
            }
        }
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}
