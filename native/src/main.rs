//! Native contract-checking stand-in: evaluates the property contracts of
//! /verif/properties.jsonl on the real crate (path dependency on /repo), on
//! enumerated and random inputs and histories.  Bounded; never counted as proof.
//!
//! usage: cbmnat PROP --seed N --scale S --scratch DIR [--only CASE]
mod build;
mod codec;
mod ctx;
mod files;
mod hist;
mod layout;
mod raw;

use ctx::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let scale: f64 = get("--scale", "1").parse().unwrap();
    let scratch = get("--scratch", "");
    let only: Option<u64> = get("--only", "").parse().ok();
    if scratch.is_empty() {
        eprintln!("--scratch required");
        std::process::exit(2);
    }
    std::fs::create_dir_all(&scratch).unwrap();
    // Panics of the code under test are caught per case; keep stderr readable.
    std::panic::set_hook(Box::new(|info| {
        ctx::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}", info));
    }));
    let prop_n = prop.clone();
    let mut c = Ctx::new(prop, seed, scale, scratch, only);
    match prop_n.as_str() {
        "P01" => layout::p01(&mut c),
        "P02" => layout::p02(&mut c),
        "P03" => layout::p03(&mut c),
        "P04" | "P05" => layout::p04_05(&mut c),
        "P06" | "P07" | "P08" | "P09" | "P11" => hist::run(&mut c),
        "P10" => codec::p10(&mut c),
        "P12" => files::p12(&mut c),
        "P13" => files::p13(&mut c),
        "P14" => layout::p14(&mut c),
        "P15" => files::p15(&mut c),
        "P16" => files::p16(&mut c),
        "P17" => files::p17(&mut c),
        "P18" => codec::p18(&mut c),
        "P19" => codec::p19(&mut c),
        "P20" => codec::p20(&mut c),
        "P21" => layout::p21(&mut c),
        "P22" => files::p22(&mut c),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(2);
        }
    }
    c.finish();
}
