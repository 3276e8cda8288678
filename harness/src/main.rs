mod core;
mod fake;
mod gen;
mod heap;
mod proto;
mod props_res;
mod props_state;
mod props_verdict;
mod props_zk;
mod refimpl;
mod sanitize;
use std::time::Duration;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn all() -> Vec<core::Prop> {
    let mut v = props_verdict::props();
    v.extend(props_state::props());
    v.extend(props_zk::props());
    v.extend(props_res::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    core::silence_panics();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let props = all();
            let p = match props.iter().find(|p| p.id == args[2]) {
                Some(p) => p,
                None => {
                    println!("no such property");
                    std::process::exit(2)
                }
            };
            let plain = std::env::var("VP_BUILD").map_or(false, |b| b == "plain");
            let cap = match (tier == "thorough", plain) {
                (true, false) => 560,
                (true, true) => 200,
                (false, _) => 240,
            };
            let part = if plain { 0.35 } else { 1.0 };
            let cfg = core::RunCfg {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64) + if plain { 1_000_000 } else { 0 },
                tier,
                cap: Duration::from_secs(cap),
                verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
                scale: std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) * part,
                plain,
            };
            match args.get(3) {
                Some(crumbs) => core::aftermath(p, &cfg, crumbs),
                None => core::run(p, &cfg),
            }
        }
        Some("replay") => core::replay(&all(), &args[2]),
        Some("c18child") => {
            let n = props_state::c18_child(args[2].parse().unwrap(), args[3].parse().unwrap());
            ((n / 8).min(250)) as i32
        }
        Some("c18long") => {
            let n = props_state::c18_long(args[2].parse().unwrap(), args[3].parse().unwrap());
            ((n / 8).min(250)) as i32
        }
        Some("c13child") => {
            props_zk::c13_child(args[2].parse().unwrap(), args.get(3).is_some());
            0
        }
        Some("workload") => sanitize::workload(&all(), args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("miri") => sanitize::miri(args[2].parse().unwrap(), args[3].parse().unwrap()),
        Some("sanitize-report") => sanitize::report(&args[2]),
        Some("list") => {
            for p in all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: vp check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
