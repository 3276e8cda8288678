//! C26 (nothing left behind), C27 (memory and time).
#![allow(non_snake_case)]
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::heap;
use crate::proto::*;
use crate::refimpl;
use rand::{Rng as _, RngCore};

fn stmt_bytes(st: &Stmt) -> u64 {
    let crs = st.crs().map_or(0, |c| 160 * (c.g.len() + c.h.len() + 1)) as u64;
    crs + match st {
        Stmt::Ipa { .. } | Stmt::Alm { .. } => 192,
        Stmt::Quad { gamma, .. } => gamma.iter().flatten().map(|r| 32 * r.len() + 24).sum::<usize>() as u64,
        Stmt::Copy { gamma, map, coms, .. } => {
            let n = st.crs().unwrap().g.len();
            // one more equation per generator in use
            (gamma.iter().flatten().map(|r| 32 * r.len() + 24).sum::<usize>() + map.unique.len() * n * n * 32 + 64 * map.msgs.len() + 160 * coms.len()) as u64
        }
        Stmt::Lm2 { a, t, .. } | Stmt::LmK { a, t, .. } => (a.iter().map(|r| 160 * r.len() + 24).sum::<usize>() + 160 * t.len()) as u64,
    }
}
fn proof_bytes(p: &Proof) -> u64 {
    let mut q = p.clone();
    proof_slots(p).into_iter().map(|s| match slot(&mut q, &s) {
        Slot::P(_) => 160,
        _ => 32,
    }).sum::<u64>() + 256
}

// ------------------------------------------------------------ C26

fn io_written() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/io").ok()?;
    s.lines().find_map(|l| l.strip_prefix("wchar: ").and_then(|v| v.trim().parse().ok()))
}
fn entries(dir: &str) -> Option<Vec<String>> {
    let mut v: Vec<String> = std::fs::read_dir(dir).ok()?.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect();
    v.sort();
    Some(v)
}
#[derive(PartialEq, Debug)]
struct Outside {
    fds: Option<usize>,
    threads: Option<usize>,
    written: Option<u64>,
    cwd: Option<std::path::PathBuf>,
    files: Option<Vec<String>>,
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
}
fn outside(scratch: &str) -> Outside {
    Outside {
        fds: entries("/proc/self/fd").map(|v| v.len()),
        threads: entries("/proc/self/task").map(|v| v.len()),
        written: io_written(),
        cwd: std::env::current_dir().ok(),
        files: entries(scratch),
        env: std::env::vars_os().collect(),
    }
}
/// One session of each kind of outcome; nothing is kept.
fn session(st: &Stmt, wit: &Wit, rng: &mut Rng) -> bool {
    let ctx = Ctx::gen(rng);
    let r = guard(|| {
        let p = prove_native(st, wit, &mut ctx.tr());
        let ok = p.verify(st, &mut ctx.tr());
        (ok, p.parts())
    });
    match r {
        Ok((ok, p)) => {
            let s = proof_slots(&p);
            let (bad, _) = tamper_proof(&p, &s[rng.gen_range(0, s.len())], rng);
            let n = native(&bad);
            let _ = guard(|| n.verify(st, &mut ctx.tr()));
            let (bad, _) = crate::props_state::malform(&p, rng);
            let n = native(&bad);
            let _ = guard(|| n.verify(st, &mut ctx.tr()));
            if rng.gen_range(0, 4) == 0 {
                crate::props_state::refused_call(st, wit, &ctx, rng);
            }
            ok
        }
        Err(_) => false,
    }
}
/// The process' directory and its place for temporary files, for the time of one case.
struct Scratch(std::path::PathBuf, Option<std::path::PathBuf>, Option<std::ffi::OsString>);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("VERIF_DIR").map(|d| d + "/.build").unwrap_or_else(|_| "/tmp".into());
        let d = std::path::PathBuf::from(format!("{}/c26-{}-{}", base, std::process::id(), nth()));
        let was = std::env::current_dir().ok();
        let tmp = std::env::var_os("TMPDIR");
        if std::fs::create_dir_all(&d).is_ok() {
            let _ = std::env::set_current_dir(&d);
            std::env::set_var("TMPDIR", &d);
        }
        Scratch(d, was, tmp)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if let Some(w) = &self.1 {
            let _ = std::env::set_current_dir(w);
        }
        match &self.2 {
            Some(t) => std::env::set_var("TMPDIR", t),
            None => std::env::remove_var("TMPDIR"),
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
static HISTORY: std::sync::Mutex<Vec<i64>> = std::sync::Mutex::new(Vec::new());
/// What one case keeps is little; what all keep grows from the first to the last.
fn c26_finish(obs: &mut Obs) -> Res {
    let h = HISTORY.lock().unwrap();
    let third = h.len() / 3;
    if third >= 2 {
        let (a, b, c) = (h[third - 1], h[2 * third - 1], h[h.len() - 1]);
        obs.count("bytes in use at the end", c.max(0) as u64);
        ensure!(b - a < 100_000 || c - b < 100_000, "the heap grows with every walk: {:?}", h);
        obs.seen("whole run compared");
    }
    Ok(())
}
fn c26(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let _place = Scratch::new();
    rand::rngs::vp::uninstall();
    let one = (nth() + 8) % 9;
    let kinds: Vec<Kind> = if (one as usize) < KINDS.len() { vec![KINDS[one as usize]] } else { KINDS.to_vec() };
    let small = |k: Kind| -> Size {
        let n = match k {
            Kind::Copy => 8,
            _ => 4,
        };
        Size { kind: k, n, m: 2, k: 2 }
    };
    obs.shape(format!("{:?}", kinds));
    fp(&rng.next_u64().to_le_bytes());
    // one fixed session of every kind precedes every measurement
    let fixed: Vec<(Stmt, Wit)> = KINDS.iter().filter_map(|k| gen_sized(small(*k), Style::Dense, rng).ok()).collect();
    let windows = 4;
    let (warm, len) = if obs.thorough { (300, 300) } else { (150, 100) };
    let mut out = Vec::new();
    let mut honest = 0u64;
    let dir = std::env::current_dir().map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
    for win in 0..windows + 1 {
        for i in 0..if win == 0 { warm } else { len } {
            let k = kinds[i % kinds.len()];
            if let Ok((st, wit)) = gen_sized(small(k), Style::Dense, rng) {
                honest += session(&st, &wit, rng) as u64;
            }
        }
        for (st, wit) in fixed.iter() {
            session(st, wit, rng);
        }
        out.push(outside(&dir));
    }
    let seed = rng.next_u64();
    let pick = |i: usize| small(kinds[i % kinds.len()]);
    let mem = heap_walk(&pick, &fixed, len, seed, own_thread);
    // over the whole run
    {
        let mut h = HISTORY.lock().unwrap();
        h.push(heap::live());
    }
    obs.count("sessions with an accepted proof", honest);
    let what = format!("{:?}", kinds);
    for i in 2..out.len() {
        let (a, b) = (&out[i - 1], &out[i]);
        ensure!(a.cwd == b.cwd && a.env == b.env, "{}: {} sessions changed the process' environment or directory", what, len);
        ensure!(a.files == b.files, "{}: {} sessions left files: {:?} became {:?}", what, len, a.files, b.files);
        obs.seen("surroundings compared");
    }
    let b = &out[windows];
    let grown = |x: &dyn Fn(&Outside) -> Option<u64>| -> Option<(u64, u64)> {
        let v: Vec<u64> = out.iter().skip(1).filter_map(|o| x(o)).collect();
        let up = v.windows(2).filter(|w| w[1] > w[0]).count();
        if v.len() == windows && up >= 2 {
            Some((v[0], v[windows - 1]))
        } else {
            None
        }
    };
    if let Some((x, y)) = grown(&|o| o.fds.map(|v| v as u64)) {
        return violation(format!("{}: open files grow from {} to {} over {} sessions", what, x, y, len * 3));
    }
    if let Some((x, y)) = grown(&|o| o.threads.map(|v| v as u64)) {
        return violation(format!("{}: threads grow from {} to {} over {} sessions", what, x, y, len * 3));
    }
    if let Some((x, y)) = grown(&|o| o.written) {
        return violation(format!("{}: {} bytes were written to files or streams by {} sessions", what, y - x, len * 3));
    }
    if b.written.is_some() && b.fds.is_some() && b.threads.is_some() {
        obs.seen("open files, threads and writes compared");
    }
    heap_grows(&what, len, &mem)?;
    obs.seen("heap compared");
    Ok(())
}
/// The heap, in a walk in which the harness keeps nothing, in a thread of its own:
/// what is kept per thread or per process grows whenever the number of sessions doubles.
fn heap_walk(sizes: &dyn Fn(usize) -> Size, fixed: &[(Stmt, Wit)], len: usize, seed: u64, sync: impl Fn(&mut dyn FnMut()) ) -> [i64; 4] {
    let steps = [len, 2 * len, 4 * len, 8 * len];
    let mut mem = [0i64; 4];
    sync(&mut || {
        use rand::SeedableRng;
        let rng = &mut Rng::seed_from_u64(seed);
        rand::rngs::vp::uninstall();
        let mut done = 0;
        for (win, up) in steps.iter().enumerate() {
            while done < *up {
                if let Ok((st, wit)) = gen_sized(sizes(done), Style::Dense, rng) {
                    session(&st, &wit, rng);
                }
                done += 1;
            }
            for (st, wit) in fixed.iter() {
                session(st, wit, rng);
            }
            mem[win] = heap::live();
        }
    });
    mem
}
fn own_thread(f: &mut dyn FnMut()) {
    struct F<'a>(&'a mut dyn FnMut());
    unsafe impl<'a> Send for F<'a> {}
    let f = F(f);
    std::thread::scope(|s| {
        let _ = s
            .spawn(move || {
                let f = f;
                (f.0)()
            })
            .join();
    });
}
fn heap_grows(what: &str, len: usize, mem: &[i64; 4]) -> Res {
    let grow: Vec<i64> = (1..4).map(|i| mem[i] - mem[i - 1]).collect();
    let up = grow.iter().filter(|g| **g >= 200).count();
    ensure!(
        grow.iter().sum::<i64>() < 8 * len as i64 || up < 2,
        "{}: the heap grows by {:?} bytes while the number of sessions that keep nothing doubles from {} to {}", what, grow, len, 8 * len
    );
    Ok(())
}
/// Walks of wide sessions: many entries, rows, equations, commitments or parts.
fn c26_wide(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let _place = Scratch::new();
    rand::rngs::vp::uninstall();
    let kind = KINDS[nth() as usize % KINDS.len()];
    let big = nth() as usize / KINDS.len() % 3;
    let size = move |i: usize| -> Size {
        let (n, m, k) = match (kind, (i + big) % 3) {
            (Kind::Ipa, _) | (Kind::Alm, _) => (64, 2, 2),
            (Kind::Quad, 0) => (16, 40, 2),
            (Kind::Quad, _) => (32, 3, 2),
            (Kind::Copy, 0) => (32, 3, 18),
            (Kind::Copy, _) => (32, 3, 2),
            (Kind::Lm2, 0) | (Kind::Lm2Zk, 0) => (2, 70, 2),
            (Kind::Lm2, _) | (Kind::Lm2Zk, _) => (64, 2, 2),
            (_, 0) => (2, 70, 2),
            (_, 1) => (33, 1, 33),
            (_, _) => (64, 1, 2),
        };
        Size { kind, n, m, k }
    };
    let len = if obs.thorough { 60 } else { 16 };
    let what = format!("wide sessions of {:?}", kind);
    obs.shape(what.clone());
    let seed = rng.next_u64();
    fp(&seed.to_le_bytes());
    let mem = heap_walk(&size, &[], len, seed, own_thread);
    heap_grows(&what, len, &mem)?;
    obs.count("wide sessions", 8 * len as u64);
    obs.seen("heap compared");
    Ok(())
}

// ------------------------------------------------------------ C27

/// Largest ratio of memory held at one time, and of memory requested in total, to the size of what was given.
/// Measured on the current tree: prover 10 and 77, verifier 8 and 17.
const PROVE: (i64, u64) = (60, 600);
const VERIFY: (i64, u64) = (48, 240);
const FREE: i64 = 64 << 10;

/// Seconds of processor time: a generous multiple of what the current tree takes, and never below a second.
fn slow(st: &Stmt, proving: bool, size: u64) -> f64 {
    let per = match (st, proving) {
        (Stmt::LmK { k, .. }, true) => 40e-6 * (1.0 + *k as f64 / 10.0),
        (_, true) => 40e-6,
        _ => 25e-6,
    };
    1.0 + per * size as f64
}
fn within(what: &str, lim: (i64, u64), cpu: f64, size: u64, run: &mut dyn FnMut()) -> Res {
    let (_, mut u) = heap::measure(|| run());
    ensure!(
        u.peak <= lim.0 * size as i64 + FREE,
        "{}: {} bytes at one time for {} bytes of input (more than {} times)", what, u.peak, size, lim.0
    );
    ensure!(
        u.total <= lim.1 * size + FREE as u64,
        "{}: {} bytes requested for {} bytes of input (more than {} times)", what, u.total, size, lim.1
    );
    for _ in 0..3 {
        if u.cpu <= cpu {
            return Ok(());
        }
        u = heap::measure(|| run()).1;
    }
    ensure!(u.cpu <= cpu, "{}: {:.2} s of processor time for {} bytes of input", what, u.cpu, size);
    Ok(())
}
fn c27_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let mut v = size_list(true);
    v.retain(|z| z.n * z.n * z.k.max(1) < 3_000_000 || !matches!(z.kind, Kind::Quad | Kind::Copy));
    // the long ones first
    v.sort_by_key(|z| std::cmp::Reverse((z.n, z.m)));
    let z = walk(&v);
    let (st, wit) = match gen_sized(z, Style::Dense, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    c27_at(st, wit, rng, obs)
}
/// Statements large in one direction: what looks at every pair of equations, rows or entries, shows.
fn c27_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let s = |kind: Kind, n: usize, m: usize, k: usize| Size { kind, n, m, k };
    let l = [
        s(Kind::Quad, 4, 6_000, 1), s(Kind::Lm2, 2, 2_000, 1), s(Kind::Copy, 8, 3_000, 1), s(Kind::LmK, 2, 2_000, 2), s(Kind::Ipa, 2_048, 1, 1),
        s(Kind::Lm2Zk, 2_048, 1, 1), s(Kind::LmKZk, 729, 1, 3), s(Kind::Alm, 2_048, 1, 1),
    ];
    for i in 0..3 {
        let z = l[(nth() as usize * 3 + i) % l.len()];
        if let Ok((st, wit)) = gen_sized(z, Style::Dense, rng) {
            c27_at(st, wit, rng, obs)?;
            obs.count("very large statements", 1);
        }
    }
    Ok(())
}
fn c27_random(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let (st, wit) = match gen_any(kind, 64, Style::Odd, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    c27_at(st, wit, rng, obs)
}
fn c27_at(st: Stmt, wit: Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let size = stmt_bytes(&st);
    let mut p = Err(String::new());
    within(&format!("{}: prover", st.desc()), PROVE, slow(&st, true, size), size, &mut || {
        p = guard(|| prove_native(&st, &wit, &mut ctx.tr()));
    })?;
    obs.seen("provers measured");
    let p = match p {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    let parts = p.parts();
    fp(&digest(&parts).to_le_bytes());
    let size = size + proof_bytes(&parts);
    within(&format!("{}: verifier", st.desc()), VERIFY, slow(&st, false, size), size, &mut || {
        let _ = guard(|| p.verify(&st, &mut ctx.tr()));
    })?;
    obs.seen("verifiers measured");
    Ok(())
}
/// Proofs made to cost: many rounds, long lists, in an otherwise honest proof.
fn inflate(p: &Proof, rng: &mut Rng) -> (Proof, String) {
    let mut q = p.clone();
    let rounds = [1usize, 5, 16, 20, 24, 28, 31, 32, 33, 36, 40, 48, 62, 63, 64, 65, 100, 127, 128, 300][rng.gen_range(0, 20)];
    let x = pt(rng);
    let how;
    let same = rng.gen_range(0, 3) > 0;
    match &mut q {
        Proof::Ipa(_) | Proof::Alm(_) | Proof::Quad(_) | Proof::Copy { .. } => {
            let i = crate::proto::ipa_part(&mut q);
            i.l.resize(rounds, x.compress());
            if same {
                i.r.resize(rounds, x.compress());
            }
            how = format!("{} rounds", rounds);
        }
        Proof::Lm2 { z, mask } => {
            let rows = z.l.get(0).map_or(1, |r| r.len());
            match rng.gen_range(0, 3) {
                0 => {
                    z.l.resize(rounds, vec![x; rows]);
                    if same {
                        z.r.resize(rounds, vec![x; rows]);
                    }
                    how = format!("{} rounds", rounds);
                }
                1 if mask.is_some() => {
                    mask.as_mut().unwrap().resize(rounds * 10, x.into());
                    how = format!("a mask of {} points", rounds * 10);
                }
                _ => {
                    for r in z.l.iter_mut() {
                        r.resize(rounds * 10, x);
                    }
                    how = format!("rounds of {} rows", rounds * 10);
                }
            }
        }
        Proof::LmK { z, mask } => match rng.gen_range(0, 6) {
            0 => {
                let f = z.u.get(0).cloned().unwrap_or_else(|| vec![vec![x]]);
                z.u.resize(rounds, f);
                how = format!("{} rounds", rounds);
            }
            1 if mask.is_some() => {
                mask.as_mut().unwrap().resize(rounds * 10, x.into());
                how = format!("a mask of {} points", rounds * 10);
            }
            2 => {
                z.w.resize(rounds * 10, S::one());
                how = format!("{} last values", rounds * 10);
            }
            3 => {
                z.t.resize(rounds * 10, x);
                how = format!("{} last targets", rounds * 10);
            }
            4 => {
                let f = z.a.get(0).cloned().unwrap_or_else(|| vec![x]);
                z.a.resize(rounds * 10, f);
                how = format!("{} last rows", rounds * 10);
            }
            _ => {
                let f = vec![x; rounds];
                for r in z.u.iter_mut() {
                    r.resize(rounds * 3, f.clone());
                }
                how = format!("rounds of {} parts", rounds * 3);
            }
        },
    }
    (q, how)
}
/// Tens of thousands of parts, all different: what compares each with each, or looks for it in a list, shows.
fn c27_distinct(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let kind = KINDS[nth() as usize % KINDS.len()];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let p = refimpl::prove(&st, &wit, &mut ctx.tr(), rng);
    let many = if obs.thorough { 40_000 } else { 20_000 };
    let (mut x, step) = (pt(rng), pt(rng));
    let mut next = move || {
        x += step;
        x
    };
    let ways = match kind {
        Kind::Ipa | Kind::Alm | Kind::Quad | Kind::Copy => 2,
        Kind::Lm2 => 2,
        Kind::Lm2Zk => 3,
        Kind::LmK => 5,
        Kind::LmKZk => 6,
    };
    let way = (nth() as usize / KINDS.len() + rng.gen_range(0, 2)) % ways;
    let mut q = p.clone();
    let mut list = |v: &mut Vec<P>| v.extend((0..many).map(|_| next()));
    match &mut q {
        Proof::Lm2 { z, mask } => match way {
            0 => {
                for l in [&mut z.l, &mut z.r].iter_mut() {
                    let m = l.first().map_or(1, |r| r.len());
                    let mut v = Vec::new();
                    list(&mut v);
                    l.extend(v.chunks(m).map(|c| c.to_vec()));
                }
            }
            1 => z.l.iter_mut().chain(z.r.iter_mut()).take(2).for_each(|r| list(r)),
            _ => list(mask.as_mut().unwrap()),
        },
        Proof::LmK { z, mask } => match way {
            0 => {
                let (a, b) = z.u.first().map_or((1, 1), |u| (u.len(), u.first().map_or(1, |r| r.len())));
                let mut v = Vec::new();
                list(&mut v);
                let rows: Vec<Vec<P>> = v.chunks(b.max(1)).map(|c| c.to_vec()).collect();
                z.u.extend(rows.chunks(a.max(1)).map(|c| c.to_vec()));
            }
            1 => z.u.iter_mut().take(1).flatten().take(2).for_each(|r| list(r)),
            2 => z.w.extend((0..many).map(|_| sc(rng))),
            3 => list(&mut z.t),
            4 => z.a.iter_mut().take(2).for_each(|r| list(r)),
            _ => list(mask.as_mut().unwrap()),
        },
        _ => {
            let mut v = Vec::new();
            list(&mut v);
            let i = crate::proto::ipa_part(&mut q);
            let n = if way == 0 { many / 2 } else { many };
            for (k, x) in v.iter().enumerate() {
                if k < n {
                    i.l.push(x.compress());
                } else {
                    i.r.push(x.compress());
                }
            }
        }
    }
    let n = native(&q);
    obs.shape(format!("{} with {} different parts, way {}", st.desc(), many, way));
    fp(&digest(&p).to_le_bytes());
    let size = stmt_bytes(&st) + proof_bytes(&q);
    // a surplus part costs at most a few group operations
    let cpu = slow(&st, false, stmt_bytes(&st)) + 2.0 + 150e-6 * many as f64;
    within(&format!("{}: verifier of a proof with {} surplus parts, all different (way {})", st.desc(), many, way), VERIFY, cpu, size, &mut || {
        let _ = guard(|| n.verify(&st, &mut ctx.tr()));
    })?;
    obs.seen("verifiers of long proofs measured");
    Ok(())
}
fn c27_hostile(rng: &mut Rng, obs: &mut Obs) -> Res {
    heap::on();
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = refimpl::prove(&st, &wit, &mut ctx.tr(), rng);
    for i in 0..6 {
        let (q, how) = if i % 3 == 2 { crate::props_state::malform(&p, rng) } else { inflate(&p, rng) };
        let n = native(&q);
        fp(&digest(&q).to_le_bytes());
        let size = stmt_bytes(&st) + proof_bytes(&q);
        within(&format!("{}: verifier of a proof with {}", st.desc(), how), VERIFY, slow(&st, false, size), size, &mut || {
            let _ = guard(|| n.verify(&st, &mut ctx.tr()));
        })?;
        obs.seen("verifiers of hostile proofs measured");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "a case is a walk of several hundred sessions (accepted, rejected, malformed, refused) of one protocol or of all, with fresh statements of one size; distinct by the statements' seed",
            fams: vec![fam("walks over every protocol", 9, c26), fam("wide sessions of every protocol", 4, c26_wide)],
            quick: 26, thorough: 117, threads: 1,
            must_see: vec!["heap compared", "surroundings compared"],
            assumptions: vec![], finish: Some(c26_finish),
        },
        Prop {
            id: "C27",
            rule: "a case is a session whose requests to the heap are counted, with honest, damaged or inflated proofs; distinct by proof bytes",
            fams: vec![fam("every size", 25, c27_sizes), fam("random sizes", 50, c27_random), fam("hostile proofs", 100, c27_hostile), fam("different parts", 1, c27_distinct), fam("very large", 0, c27_huge)],
            quick: 2200, thorough: 20_000, threads: 1,
            must_see: vec!["provers measured", "verifiers measured", "verifiers of hostile proofs measured", "verifiers of long proofs measured"],
            assumptions: vec![], finish: None,
        },
    ]
}
