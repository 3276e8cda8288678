//! Case runner: deterministic per-case seeds, worker threads, verdicts, evidence, replay files.
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Rng = StdRng;

/// How a case ends when it does not simply hold.
pub enum Fail {
    /// the property is broken; the text is the witness
    Violation(String),
    /// the monitor could not decide
    Inconclusive(String),
}
pub type Res = Result<(), Fail>;

pub fn violation<T>(s: impl Into<String>) -> Result<T, Fail> {
    let mut s: String = s.into();
    if s.len() > 6000 {
        let mut at = 6000;
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.truncate(at);
        s.push_str(" ...");
    }
    Err(Fail::Violation(s))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return $crate::core::violation(format!($($arg)*)); } };
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub shapes: BTreeSet<String>,
    pub distinct: HashSet<u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub thorough: bool,
    pub current: String,
    nontrivial: bool,
}

impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// A verdict or value the monitor compared with its oracle.
    pub fn seen(&mut self, k: &str) {
        self.nontrivial = true;
        self.count(k, 1);
    }
    /// Structural description of the case.
    pub fn shape(&mut self, s: String) {
        if self.shapes.len() < 4000 {
            self.shapes.insert(format!("{}/{}", self.current, s));
        }
        fp(s.as_bytes());
        self.sample(s);
    }
    pub fn sample(&mut self, s: String) {
        let v = self.samples.entry(self.current.clone()).or_default();
        if v.len() < 2 {
            v.push(s);
        }
    }
    pub fn absorb(&mut self, o: Obs) {
        self.merge(o)
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.shapes.extend(o.shapes);
        self.distinct.extend(o.distinct);
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            for s in v {
                if e.len() < 2 {
                    e.push(s);
                }
            }
        }
    }
}

pub struct Fam {
    pub name: &'static str,
    pub weight: u64,
    pub f: fn(&mut Rng, &mut Obs) -> Res,
}
pub fn fam(name: &'static str, weight: u64, f: fn(&mut Rng, &mut Obs) -> Res) -> Fam {
    Fam { name, weight, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub fams: Vec<Fam>,
    /// cases in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// monitor counters that must be non-zero, otherwise the run is inconclusive
    pub must_see: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
    /// oracle over the whole run
    pub finish: Option<fn(&mut Obs) -> Res>,
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finalise
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}
pub fn hash64(parts: &[&[u8]]) -> u64 {
    fnv(parts)
}

pub fn case_seed(seed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    fnv(&[&seed.to_le_bytes(), prop.as_bytes(), fam.as_bytes(), &idx.to_le_bytes()])
}

/// Runs code of the crate under test; a panic is an observation, not a crash.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn silence_panics() {
    if std::env::var("VP_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

thread_local!(static FP: Cell<u64> = Cell::new(0));
/// Adds an input of the code under test to the fingerprint of the current case.
pub fn fp(data: &[u8]) {
    FP.with(|c| c.set(fnv(&[&c.get().to_le_bytes(), data])));
}

thread_local!(static NTH: Cell<u64> = Cell::new(0));
/// Number of the current case within its family: families that walk a list of sizes use it.
pub fn nth() -> u64 {
    NTH.with(|c| c.get())
}
/// The entry of a list that the current case is about; every second lap runs backwards.
pub fn walk<T: Copy>(list: &[T]) -> T {
    let l = list.len() as u64;
    let n = nth();
    let i = (n % l) as usize;
    list[if (n / l) % 2 == 0 { i } else { list.len() - 1 - i }]
}
/// Families of weight 0 run a fixed number of cases, before all others; their cases are numbered from here.
const ONCE: u64 = 1 << 40;
fn nth_of(p: &Prop, f: &Fam, idx: u64) -> u64 {
    if idx >= ONCE {
        return idx - ONCE;
    }
    let sched = schedule(p);
    let l = sched.len() as u64;
    let me = |i: &&usize| p.fams[**i].name == f.name;
    (idx / l) * f.weight + sched[..(idx % l) as usize].iter().filter(me).count() as u64
}

pub fn run_case(p: &Prop, f: &Fam, seed: u64, idx: u64, obs: &mut Obs) -> Res {
    run_case_at(p, f, seed, idx, nth_of(p, f, idx), obs)
}
pub fn run_case_at(p: &Prop, f: &Fam, seed: u64, idx: u64, nth: u64, obs: &mut Obs) -> Res {
    NTH.with(|c| c.set(nth));
    let s = case_seed(seed, p.id, f.name, idx);
    let mut rng = StdRng::seed_from_u64(s);
    obs.current = f.name.to_string();
    obs.nontrivial = false;
    rand::rngs::vp::install(Vec::new(), Some(s ^ 0x5bd1e995));
    // in some cases the lists given to the crate have spare room
    if s % 5 == 0 && !matches!(p.id, "C20" | "C26" | "C27") {
        crate::proto::room(s | 1);
    }
    let r = catch_unwind(AssertUnwindSafe(|| (f.f)(&mut rng, obs)));
    crate::proto::room(0);
    rand::rngs::vp::uninstall();
    obs.count("cases", 1);
    obs.count(&format!("cases:{}", f.name), 1);
    // the fingerprint of a case is a hash of the inputs it gave to the code under test
    let fp = FP.with(|c| c.replace(0));
    if obs.nontrivial && fp != 0 {
        obs.distinct.insert(fnv(&[f.name.as_bytes(), &fp.to_le_bytes()]));
    }
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::Inconclusive(format!("the harness itself failed: {}", m)))
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct RunCfg {
    pub seed: u64,
    pub tier: String,
    pub cap: Duration,
    pub verif: String,
    pub scale: f64,
    /// this is the build without debug assertions and overflow checks: a fraction of the cases
    pub plain: bool,
}

/// Expands the families by weight into a schedule.
fn schedule(p: &Prop) -> Vec<usize> {
    // interleave so that every prefix of the run contains every family
    let total: u64 = p.fams.iter().map(|f| f.weight).sum();
    let mut acc: Vec<i64> = vec![0; p.fams.len()];
    let mut out = Vec::new();
    for _ in 0..total {
        for (i, f) in p.fams.iter().enumerate() {
            acc[i] += f.weight as i64;
        }
        let (i, _) = acc.iter().enumerate().max_by_key(|(i, v)| (**v, -(*i as i64))).unwrap();
        acc[i] -= total as i64;
        out.push(i);
    }
    out
}

const HANG: Duration = Duration::from_secs(400);

fn report(p: &Prop, cfg: &RunCfg, idx: u64, fam: &str, m: &str) {
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, p.id, fam.replace(' ', "_"), cfg.seed);
    let body = format!(
        "{{\"property\":{},\"family\":{},\"index\":{},\"seed\":{},\"tier\":{},\"build\":{},\"observed\":{}}}\n",
        json_str(p.id), json_str(fam), if idx == u64::MAX { 0 } else { idx }, cfg.seed, json_str(&cfg.tier),
        json_str(if cfg.plain { "plain" } else { "checked" }), json_str(m)
    );
    let _ = std::fs::write(&path, body);
    println!("{}: family '{}' case {} (seed {}): {}", p.id, fam, idx as i64, cfg.seed, m);
    println!("VIOLATION property={} replay={}", p.id, path);
}

pub fn run(p: &Prop, cfg: &RunCfg) -> i32 {
    let start = Instant::now();
    let thorough = cfg.tier == "thorough";
    let target = ((if thorough { p.thorough } else { p.quick }) as f64 * cfg.scale).ceil() as u64;
    let sched = schedule(p);
    // the cases of the families of weight 0: slow ones, all started at once
    let reps = if thorough { 8 } else if cfg.plain { 1 } else { 3 };
    let once: Vec<(u64, usize)> = (0..reps).flat_map(|r| p.fams.iter().enumerate().filter(|f| f.1.weight == 0).map(move |f| (ONCE + r, f.0))).collect();
    let once = &once;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let viol: Mutex<Option<(u64, usize, String)>> = Mutex::new(None);
    let incon: Mutex<Option<String>> = Mutex::new(None);
    let total = Mutex::new(Obs::default());
    let threads = if p.threads == 0 { 8 } else { p.threads };
    let running: Vec<Mutex<Option<(Instant, u64, usize)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let alive = AtomicUsize::new(threads);
    // what every thread is at, for the case that the whole process ends
    let crumbs = std::env::var("VP_CRUMBS").ok().and_then(|f| std::fs::File::create(f).ok());
    let crumbs = &crumbs;
    std::thread::scope(|sc| {
        // a case that never ends is a finding of its own
        sc.spawn(|| {
            while alive.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(100));
                for r in running.iter() {
                    if let Some((t, idx, fi)) = *r.lock().unwrap() {
                        if t.elapsed() > HANG {
                            let m = format!("the case did not end within {} s", HANG.as_secs());
                            report(p, cfg, idx, p.fams[fi].name, &m);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for (slot, me) in running.iter().enumerate() {
            let (alive, next, stop, viol, incon, total, sched) = (&alive, &next, &stop, &viol, &incon, &total, &sched);
            sc.spawn(move || {
                let mut obs = Obs::default();
                obs.thorough = thorough;
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let turn = next.fetch_add(1, Ordering::Relaxed);
                    let (idx, fi) = match once.get(turn as usize) {
                        Some(c) => *c,
                        None => {
                            let idx = turn - once.len() as u64;
                            (idx, sched[(idx % sched.len() as u64) as usize])
                        }
                    };
                    if (idx < ONCE && idx >= target) || start.elapsed() > cfg.cap {
                        break;
                    }
                    *me.lock().unwrap() = Some((Instant::now(), idx, fi));
                    if let Some(c) = crumbs {
                        use std::os::unix::fs::FileExt;
                        let _ = c.write_at(format!("{:>20} {:>10}\n", idx, fi).as_bytes(), slot as u64 * 32);
                    }
                    let res = run_case(p, &p.fams[fi], cfg.seed, idx, &mut obs);
                    *me.lock().unwrap() = None;
                    match res {
                        Ok(()) => {}
                        Err(Fail::Violation(m)) => {
                            let mut v = viol.lock().unwrap();
                            if v.as_ref().map_or(true, |x| idx < x.0) {
                                *v = Some((idx, fi, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        Err(Fail::Inconclusive(m)) => {
                            let mut v = incon.lock().unwrap();
                            if v.is_none() {
                                *v = Some(format!("{} case {}: {}", p.fams[fi].name, idx, m));
                            }
                        }
                    }
                }
                total.lock().unwrap().merge(obs);
                alive.fetch_sub(1, Ordering::Relaxed);
            });
        }
    });
    let mut obs = total.into_inner().unwrap();
    obs.thorough = thorough;
    let mut viol = viol.into_inner().unwrap();
    let mut incon = incon.into_inner().unwrap();
    if viol.is_none() {
        if let Some(f) = p.finish {
            match f(&mut obs) {
                Ok(()) => {}
                Err(Fail::Violation(m)) => viol = Some((u64::MAX, usize::MAX, m)),
                Err(Fail::Inconclusive(m)) => incon = Some(m),
            }
        }
    }
    let evals = obs.counts.get("cases").copied().unwrap_or(0);
    if viol.is_none() && incon.is_none() {
        if evals < target / 10 {
            incon = Some(format!("only {} of {} cases within the time cap", evals, target));
        }
        for k in p.must_see.iter() {
            if obs.counts.get(*k).copied().unwrap_or(0) == 0 {
                incon = Some(format!("the monitor never observed '{}'", k));
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    if cfg.plain && viol.is_none() {
        if let Ok(f) = std::env::var("VP_PLAIN_FILE") {
            let _ = std::fs::write(f, format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.3}}}", evals, obs.distinct.len(), wall));
        }
    } else {
        write_evidence(p, cfg, &obs, evals, wall, viol.is_some() as u32);
    }
    if let Some((idx, fi, m)) = viol {
        let fam = if fi == usize::MAX { "finish" } else { p.fams[fi].name };
        report(p, cfg, idx, fam, &m);
        return 1;
    }
    if let Some(m) = incon {
        println!("INCONCLUSIVE property={}: {}", p.id, m);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct) in {:.1} s{}",
        p.id, evals, obs.distinct.len(), start.elapsed().as_secs_f64(),
        if cfg.plain { ", build without debug assertions" } else { "" }
    );
    0
}

/// The process that ran a check died: each case that was under way is run again on its own, and
/// one that kills its process is the finding.
pub fn aftermath(p: &Prop, cfg: &RunCfg, crumbs: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return 2,
    };
    let text = String::from_utf8_lossy(&std::fs::read(crumbs).unwrap_or_default()).replace('\0', " ");
    for l in text.lines() {
        let mut it = l.split_whitespace();
        let (idx, fi) = match (it.next().and_then(|x| x.parse::<u64>().ok()), it.next().and_then(|x| x.parse::<usize>().ok())) {
            (Some(i), Some(f)) if f < p.fams.len() => (i, f),
            _ => continue,
        };
        let file = format!("{}.case", crumbs);
        let body = format!(
            "{{\"property\":{},\"family\":{},\"index\":{},\"seed\":{},\"tier\":{}}}\n",
            json_str(p.id), json_str(p.fams[fi].name), idx, cfg.seed, json_str(&cfg.tier)
        );
        let _ = std::fs::write(&file, body);
        let out = std::process::Command::new(&exe).arg("replay").arg(&file).env_remove("VP_CRUMBS").output();
        if let Ok(o) = out {
            // a kill from outside (9, 15) says nothing about the code
            let (so, e) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
            let verdict = ["the recorded case holds", "VIOLATION", "INCONCLUSIVE"].iter().any(|v| so.contains(v));
            if !verdict && !matches!(o.status.signal(), Some(9) | Some(15)) {
                let m = format!("the process ends ({}): {}", o.status, e.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or(""));
                write_evidence(p, cfg, &Obs::default(), idx, 0.0, 1);
                report(p, cfg, idx, p.fams[fi].name, &m);
                return 1;
            }
        }
    }
    println!("INCONCLUSIVE property={}: the process died, and no case that was under way kills it alone", p.id);
    2
}

pub fn write_evidence(p: &Prop, cfg: &RunCfg, obs: &Obs, evals: u64, wall: f64, violations: u32) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(p.id), json_str(&cfg.tier), cfg.seed
    ));
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, obs.distinct.len()));
    s.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    if let Some(t) = std::env::var("VP_PLAIN_FILE").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
        s.push_str(&format!("  \"build_without_debug_assertions\": {},\n", t));
    }
    s.push_str(&format!("  \"distinct_shapes\": {},\n", obs.shapes.len()));
    s.push_str("  \"observed\": {");
    let mut first = true;
    for (k, v) in obs.counts.iter() {
        if k == "cases" {
            continue;
        }
        if !first {
            s.push(',');
        }
        first = false;
        s.push_str(&format!("\n   {}: {}", json_str(k), v));
    }
    s.push_str("\n  },\n  \"samples\": [");
    let mut first = true;
    for (k, v) in obs.samples.iter() {
        for x in v {
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&format!("\n   {}", json_str(&format!("{}: {}", k, x))));
        }
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, a) in p.assumptions.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&json_str(a));
    }
    s.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violations));
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), s);
}

/// Re-executes one recorded case.
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let pat = format!("\"{}\":", k);
        let i = text.find(&pat).expect("field") + pat.len();
        let rest = &text[i..];
        if rest.starts_with('"') {
            rest[1..].split('"').next().unwrap().to_string()
        } else {
            rest.split(|c| c == ',' || c == '}').next().unwrap().to_string()
        }
    };
    let (id, famn) = (get("property"), get("family"));
    let p = props.iter().find(|p| p.id == id).expect("property");
    if famn == "finish" {
        println!("this oracle judges a whole run: re-run the check with VERIF_SEED={} VERIF_TIER={}", get("seed"), get("tier"));
        return 2;
    }
    let f = p.fams.iter().find(|f| f.name == famn).expect("family");
    let mut obs = Obs::default();
    obs.thorough = get("tier") == "thorough";
    // on a thread like those of the check, with their stack
    let (seed, index) = (get("seed").parse().unwrap(), get("index").parse().unwrap());
    let verdict = std::thread::scope(|sc| sc.spawn(|| run_case(p, f, seed, index, &mut obs)).join());
    match verdict.unwrap_or_else(|_| Err(Fail::Inconclusive("the harness itself failed".into()))) {
        Ok(()) => {
            println!("{}: the recorded case holds", id);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("{}: {}", id, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Err(Fail::Inconclusive(m)) => {
            println!("INCONCLUSIVE {}", m);
            2
        }
    }
}
