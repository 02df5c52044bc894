#![recursion_limit = "256"]

mod core;
mod dr;
mod drreal;
mod fields;
mod group;
mod hashes;
mod leaks;
mod mpc;
mod parties;
mod realhash;
mod refcrypto;
mod runner;
mod shares;
mod statistics;
mod symbolic;

use crate::core::*;

fn scenarios() -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for id in ["R01", "R02", "R03", "R04", "R05", "R06"] {
        v.push(Box::new(dr::Ratchet(id)));
    }
    v.push(Box::new(drreal::KeySchedule));
    v.push(Box::new(shares::Storage));
    for id in ["S02", "S03", "S04", "S06", "S07", "S10"] {
        v.push(Box::new(parties::Parties(id)));
    }
    v.push(Box::new(leaks::Leaks("S05")));
    v.push(Box::new(leaks::Leaks("S08")));
    v.push(Box::new(group::Agreement));
    v.push(Box::new(hashes::Streams));
    v.push(Box::new(hashes::Link));
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1);
    let tier = match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let verif = opt("--verif").unwrap_or_else(|| "/verif".to_string());
    let all = scenarios();
    let find = |id: &str| all.iter().find(|s| s.id() == id);
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for s in &all {
                println!("{}", s.id());
            }
            0
        }
        Some("check") => match opt("--property").as_deref().and_then(find) {
            Some(s) => runner::check(s.as_ref(), seed, tier, &verif),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        Some("traces") => match opt("--property").as_deref().and_then(find) {
            Some(s) => {
                let from = opt("--from").and_then(|v| v.parse().ok()).unwrap_or(0);
                let to = opt("--to").and_then(|v| v.parse().ok()).unwrap_or(100);
                runner::traces(s.as_ref(), seed, tier, from, to)
            }
            None => 2,
        },
        Some("plan") => match opt("--property").as_deref().and_then(find) {
            Some(s) => {
                let i = opt("--index").and_then(|v| v.parse().ok()).unwrap_or(0);
                print!("{}", runner::plan_for(s.as_ref(), seed, i, tier).to_text());
                0
            }
            None => 2,
        },
        Some("selftest") => {
            refcrypto::selftest();
            0
        }
        Some("replay") => match args.get(1) {
            Some(f) => runner::replay(&all, f, args.iter().any(|a| a == "--quiet")),
            None => 2,
        },
        _ => {
            eprintln!("usage: jester_dst list | check --property ID | replay FILE | traces --property ID --from A --to B | plan --property ID --index I");
            2
        }
    };
    std::process::exit(code);
}
