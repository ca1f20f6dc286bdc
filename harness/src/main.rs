//! Property checks for OTL/k. See /verif/DESIGN.md
mod heap;
mod math;
mod num;
mod props;
mod runner;
mod sched;
mod spec;

use runner::{Entry, Opts};

fn usage() -> ! {
    eprintln!("kprops list | run ID | replay FILE | one ID FILE   [--seed N] [--tier quick|thorough] [--mult X]");
    std::process::exit(2)
}

fn find(id: &str) -> Entry {
    match props::all().into_iter().find(|e| e.id == id) {
        Some(e) => e,
        None => usage(),
    }
}

fn main() {
    runner::install_hook();
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        slots: None,
        mult: std::env::var("KPROPS_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let mut i = 0;
    while i < args.len() {
        if args[i].starts_with("--") && i + 1 < args.len() {
            let v = args.remove(i + 1);
            let k = args.remove(i);
            match k.as_str() {
                "--seed" => o.seed = v.parse().unwrap_or_else(|_| usage()),
                "--tier" => o.thorough = v == "thorough",
                "--slots" => o.slots = Some(v.into()),
                "--mult" => o.mult = v.parse().unwrap_or_else(|_| usage()),
                _ => usage(),
            }
        } else {
            i += 1;
        }
    }
    // a runaway allocation must not take the machine down
    let lim = libc::rlimit {
        rlim_cur: 12 << 30,
        rlim_max: 12 << 30,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["list"] => {
            for e in props::all() {
                println!("{}", e.id);
            }
            0
        }
        ["run", id] => runner::run(&find(id), &o),
        ["worker", id] => runner::run_worker(&find(id), &o),
        ["one", id, file] => match std::fs::read_to_string(file) {
            Ok(s) => runner::run_one(&find(id), &s),
            Err(e) => {
                eprintln!("{e}");
                3
            }
        },
        ["replay", file] => {
            let v: serde_json::Value = std::fs::read_to_string(file)
                .map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
                .unwrap_or_else(|e| {
                    eprintln!("{e}");
                    std::process::exit(2)
                });
            let id = v["property"].as_str().unwrap_or("").to_string();
            let code = runner::run_one(&find(&id), &v["case"].to_string());
            if code == 1 {
                println!("VIOLATION property={id} replay={file}");
            }
            if code > 1 {
                2
            } else {
                code
            }
        }
        _ => usage(),
    };
    std::process::exit(code);
}
