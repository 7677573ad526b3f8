#![allow(clippy::all)]
#[macro_use]
mod pbt;
mod amodel;
mod isa;
mod progs;
mod props;
mod refsim;
mod rig;

fn main() {
    pbt::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier_env = std::env::var("VERIF_TIER").unwrap_or_default();
    let all = props::all();
    if args.len() < 2 || args[1] == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = all.iter().find(|p| p.id == args[1]) else {
        eprintln!("ERROR: unknown property {}", args[1]);
        std::process::exit(2);
    };
    let mode = args.get(2).map(String::as_str).unwrap_or(if tier_env == "thorough" { "thorough" } else { "quick" });
    let o = pbt::Opts {
        thorough: mode.starts_with("thorough"),
        seed,
        root,
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only_suite: std::env::var("VERIF_SUITE").ok(),
        evidence: true,
    };
    let arg = |i: usize| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    let code = match mode {
        "suites" => {
            for s in p.suites.iter().filter(|s| !s.exhaustive && !s.serial) {
                println!("{}", s.name);
            }
            0
        }
        "bytes" => pbt::run_bytes(p, &o, &args[3], &args[4]),
        "replay" => pbt::replay(p, &o, &args[3]),
        "quick" | "thorough" => pbt::supervise(p, &o, mode),
        "quick-inner" | "thorough-inner" => pbt::run_property(p, &o),
        "one" => pbt::run_one(p, &o, arg(3) as usize, arg(4)),
        m => {
            eprintln!("ERROR: unknown mode {m}");
            2
        }
    };
    std::process::exit(code);
}
