//! C21: the workloads that the sanitizer builds run, and the report over their logs.
use crate::core::*;
use crate::gen::*;
use crate::proto::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static REPORTS: AtomicU64 = AtomicU64::new(0);

/// Panics that the compiler's own checks raise; they are reported even where the panic is caught.
fn watch_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let arithmetic = m.starts_with("attempt to ") && m.contains("overflow");
        if arithmetic || m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer") || m.contains("invalid value") {
            REPORTS.fetch_add(1, Ordering::Relaxed);
            println!("CHECK-REPORT {} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        }
    }));
}

/// Every family of every property, `per` cases each, on `threads` threads at once.
/// Verdicts belong to the other checks; here only the instrumentation counts.
pub fn workload(props: &[Prop], seed: u64, per: u64, threads: usize) -> i32 {
    watch_panics();
    let cap = Duration::from_secs(std::env::var("VP_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(200));
    let start = Instant::now();
    // families that walk through sizes: so many cases in order, or scattered ones
    let walk: u64 = std::env::var("VP_WALK").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut jobs = Vec::new();
    for round in 0..per.max(walk) {
        for p in props {
            for f in p.fams.iter() {
                // families that start processes or measure the process repeat what the others do
                if matches!(p.id, "C18" | "C26" | "C27") || f.name == "processes" || f.weight == 0 {
                    continue;
                }
                let walks = f.name.contains("every");
                if round >= if walks { per.max(walk) } else { per } {
                    continue;
                }
                // expensive ones: fewer cases
                if round % 8 != 0 && (p.id == "C20" || f.name == "probes" || f.name == "masks of inner products" || f.name == "large") {
                    continue;
                }
                let nth = if walks && walk == 0 { hash64(&[&seed.to_le_bytes(), f.name.as_bytes(), &round.to_le_bytes()]) % 10_000 } else { round };
                jobs.push((p, f, round, nth));
            }
        }
    }
    let next = AtomicU64::new(0);
    let total = Mutex::new((Obs::default(), 0u64));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut obs = Obs::default();
                let mut other = 0;
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= jobs.len() || start.elapsed() > cap {
                        break;
                    }
                    let (p, f, idx, nth) = jobs[i];
                    if let Err(_) = run_case_at(p, f, seed ^ 0x21, idx, nth, &mut obs) {
                        other += 1;
                    }
                }
                let mut t = total.lock().unwrap();
                t.0.absorb(obs);
                t.1 += other;
            });
        }
    });
    let t = total.into_inner().unwrap();
    println!(
        "WORKLOAD threads={} families={} cases={} distinct={} proofs={} verifications={} other_verdicts={} reports={} wall={:.1}",
        threads,
        t.0.counts.keys().filter(|k| k.starts_with("cases:")).count(),
        t.0.counts.get("cases").unwrap_or(&0),
        t.0.distinct.len(),
        CALLS[0].load(Ordering::Relaxed),
        CALLS[1].load(Ordering::Relaxed),
        t.1,
        REPORTS.load(Ordering::Relaxed),
        start.elapsed().as_secs_f64()
    );
    for (i, s) in t.0.shapes.iter().enumerate() {
        if i % (t.0.shapes.len() / 4).max(1) == 0 {
            println!("SAMPLE {}", s.replace('\n', " "));
        }
    }
    println!("SHAPES {}", t.0.shapes.len());
    println!("DONE");
    0
}

/// A tiny session for the interpreter; `which` selects the protocol.
pub fn miri(which: usize, seed: u64) -> i32 {
    use rand::SeedableRng;
    watch_panics();
    let mut rng = Rng::seed_from_u64(case_seed(seed, "C21", "miri", which as u64));
    let rng = &mut rng;
    let (mut cases, mut shapes) = (0, Vec::new());
    if which == 0 || which >= 8 {
        // everything that needs no group operations
        cases += crate::props_state::scalar_only(which.saturating_sub(7), rng);
        shapes.push(["placement", "matrices, products, powers", "mask sampling"][which.saturating_sub(7).min(2)].to_string());
    } else {
        let (st, wit) = match which {
            1 => gen_ipa(2, Style::Dense, rng),
            2 => gen_alm(2, Style::Odd, rng),
            3 => gen_lm2(1, 2, true, Style::Dense, rng),
            4 => gen_lmk(1, 2, 2, true, Style::Dense, rng),
            5 => gen_quad(4, 1, Style::Dense, rng),
            6 => {
                let c = gen_copy(8, 1, Style::Dense, rng).unwrap();
                (c.stmt, c.wit)
            }
            _ => gen_lmk(2, 3, 3, false, Style::Dense, rng),
        };
        shapes.push(st.desc());
        let ctx = Ctx { label: 0, evs: vec![] };
        match prove(&st, &wit, &mut ctx.tr()) {
            Ok(p) => {
                let _ = verify(&st, &p, &mut ctx.tr());
                cases += 2;
            }
            Err(e) => println!("SAMPLE the prover ended with: {}", e),
        }
    }
    println!(
        "WORKLOAD threads=1 families=1 cases={} distinct={} proofs={} verifications={} other_verdicts=0 reports={} wall=0",
        cases, cases, CALLS[0].load(Ordering::Relaxed), CALLS[1].load(Ordering::Relaxed), REPORTS.load(Ordering::Relaxed)
    );
    for s in shapes.iter() {
        println!("SAMPLE {}", s);
    }
    println!("SHAPES {}", shapes.len());
    println!("DONE");
    0
}

/// Reads DIR/<tool>.log and DIR/<tool>.rc; writes the evidence and the verdict.
pub fn report(dir: &str) -> i32 {
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start: f64 = std::env::var("VP_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    let mut obs = Obs::default();
    let mut bad: Option<(String, String)> = None;
    let mut open: Vec<String> = Vec::new();
    let mut seen = BTreeMap::new();
    let mut names: Vec<String> = std::fs::read_dir(dir)
        .expect("log directory")
        .filter_map(|e| e.ok())
        .filter_map(|e| e.file_name().into_string().ok())
        .filter_map(|n| n.strip_suffix(".log").map(|s| s.to_string()))
        .collect();
    names.sort();
    for n in names.iter() {
        let tool = n.split('-').next().unwrap().to_string();
        let text = String::from_utf8_lossy(&std::fs::read(format!("{}/{}.log", dir, n)).unwrap_or_default()).to_string();
        let rc = std::fs::read_to_string(format!("{}/{}.rc", dir, n)).unwrap_or_default().trim().to_string();
        let pats = [
            "CHECK-REPORT", "ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "error: Undefined Behavior",
            "unsafe precondition", "AddressSanitizer:DEADLYSIGNAL", "SUMMARY: ", "fatal runtime error: stack overflow", "misaligned pointer dereference",
        ];
        let hit = text.lines().find(|l| pats.iter().any(|p| l.contains(p)));
        if let Some(l) = hit {
            obs.count(&format!("{}: reports", tool), 1);
            if bad.is_none() {
                bad = Some((n.clone(), l.to_string()));
            }
        }
        let get = |k: &str| -> u64 {
            text.lines()
                .filter(|l| l.starts_with("WORKLOAD "))
                .flat_map(|l| l.split(' '))
                .filter_map(|w| w.strip_prefix(&format!("{}=", k)).and_then(|v| v.parse::<u64>().ok()))
                .sum()
        };
        for (k, name) in [("cases", "cases"), ("proofs", "proofs made"), ("verifications", "verifications"), ("distinct", "distinct")].iter() {
            obs.count(&format!("{}: {}", tool, name), get(k));
        }
        obs.count("cases", get("cases"));
        *seen.entry(tool.clone()).or_insert(0) += get("cases");
        for i in 0..get("distinct") {
            obs.distinct.insert(hash64(&[n.as_bytes(), &i.to_le_bytes()]));
        }
        for l in text.lines().filter(|l| l.starts_with("SAMPLE ")) {
            obs.current = tool.clone();
            obs.sample(l[7..].to_string());
            obs.shapes.insert(l[7..].to_string());
        }
        obs.count(&format!("{}: shapes", tool), text.lines().filter_map(|l| l.strip_prefix("SHAPES ").and_then(|x| x.parse::<u64>().ok())).sum());
        if hit.is_none() {
            if rc == "132" || rc == "134" || rc == "139" || rc == "135" {
                // a signal no workload sends itself
                bad = bad.or(Some((n.clone(), format!("the process ended with signal {}", rc.parse::<i32>().unwrap_or(0) - 128))));
            } else if rc != "0" || !text.contains("DONE") {
                open.push(format!("{} ended with {} ({})", n, rc, text.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("no output")));
            }
        }
    }
    for t in ["overflow", "asan", "tsan", "msan", "miri"].iter() {
        if seen.get(*t).copied().unwrap_or(0) == 0 && bad.is_none() {
            open.push(format!("no case ran under {}", t));
        }
    }
    let p = Prop {
        id: "C21",
        rule: "a case is one case of another property's workload family (or a tiny session for the interpreter) executed by an instrumented build; distinct by inputs within one tool",
        fams: vec![], quick: 0, thorough: 0, threads: 0, must_see: vec![],
        assumptions: vec![
            "the sanitizers report what they observe on the executed paths; schedules are those the scheduler produced",
            "the interpreter runs tiny instances only",
        ],
        finish: None,
    };
    let cfg = RunCfg { seed, tier: tier.clone(), cap: Duration::from_secs(0), verif: verif.clone(), scale: 1.0, plain: false };
    let evals = obs.counts.get("cases").copied().unwrap_or(0);
    write_evidence(&p, &cfg, &obs, evals, start, bad.is_some() as u32);
    if let Some((n, l)) = bad {
        let path = format!("{}/replays/C21-{}-{}.log", verif, n, seed);
        let _ = std::fs::create_dir_all(format!("{}/replays", verif));
        let _ = std::fs::copy(format!("{}/{}.log", dir, n), &path);
        println!("C21: {}: {}", n, l);
        println!("VIOLATION property=C21 replay={}", path);
        return 1;
    }
    if !open.is_empty() {
        println!("INCONCLUSIVE property=C21: {}", open.join("; "));
        return 2;
    }
    println!("C21: no report in {} cases under {} instrumented runs", evals, names.len());
    0
}
