mod cli;
mod engine;
mod gen;
mod oracle;
mod props;
#[allow(dead_code)]
mod stat;

use std::path::PathBuf;
use std::time::Duration;

use engine::{Env, Tier};

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let usage = || -> ! {
        eprintln!("usage: elinor-verif list | check ID | replay FILE | statfn");
        std::process::exit(2)
    };
    let mode = args.first().map(String::as_str).unwrap_or("");
    if mode == "list" {
        for p in props::all() {
            println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
        }
        return;
    }
    if mode == "statfn" {
        stat::print_table();
        return;
    }
    if args.len() != 2 {
        usage();
    }
    let replay = if mode == "replay" {
        let text = std::fs::read_to_string(&args[1]).expect("replay file");
        Some(serde_json::from_str::<serde_json::Value>(&text).expect("replay file"))
    } else {
        None
    };
    let id = match &replay {
        Some(v) => v["property"].as_str().unwrap_or("").to_string(),
        None => args[1].clone(),
    };
    let all = props::all();
    let Some(prop) = all.iter().find(|p| p.id == id) else { usage() };

    // A run that does not end is an error of the check, not a violation.
    let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("ERROR in the check: time limit");
        std::process::exit(2);
    });

    let scratch = std::env::temp_dir().join(format!("elinor-verif-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let env = Env {
        property: prop.id,
        seed,
        tier,
        shards: 8,
        verif,
        scratch: scratch.clone(),
    };
    // Refused allocations abort, and are reported; the command-line tools need more address space.
    let memory = (!matches!(prop.id, "C23" | "C24" | "C25" | "C26" | "C27" | "C28" | "C31")).then_some(20 << 30);
    engine::start_watchdog(prop.id, seed, env.verif.clone(), scratch.clone(), memory);
    let code = match replay {
        Some(v) => {
            let sub = prop.subs.iter().find(|s| Some(s.name) == v["check"].as_str());
            match sub.map(|s| (s.replay)(&env, &v["case"])) {
                None => {
                    eprintln!("no such check in {id}");
                    2
                }
                Some(Ok(Ok(()))) => {
                    println!("replay passes");
                    0
                }
                Some(Ok(Err(m))) => {
                    println!("replay fails: {m}");
                    println!("VIOLATION property={} replay={}", id, args[1]);
                    1
                }
                Some(Err(e)) => {
                    eprintln!("ERROR in the check: {e}");
                    2
                }
            }
        }
        None => engine::run_property(&env, prop),
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
