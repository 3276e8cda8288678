//! C13 (blinding), C15 (challenges).
#![allow(non_snake_case)]
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props_state::bit_bias;
use crate::props_verdict::{baseline, pick, pick_edges};
use crate::proto::*;
use crate::refimpl;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::traits::Identity;
use rand::{Rng as _, RngCore};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

const ZK: [Kind; 5] = [Kind::Quad, Kind::Copy, Kind::Alm, Kind::Lm2Zk, Kind::LmKZk];

// ------------------------------------------------------------ C13: freshness

/// Components that carry blinded values. The folded map of the k-ary argument is public data
/// when there is no round.
fn blinded_slots(p: &Proof) -> Vec<PS> {
    proof_slots(p)
        .into_iter()
        .filter(|s| match (s, p) {
            (PS::KA(..), Proof::LmK { z, .. }) => !z.u.is_empty(),
            _ => true,
        })
        .collect()
}
fn fresh_cmp(st: &Stmt, a: &Proof, b: &Proof, how: &str, obs: &mut Obs) -> Res {
    let (mut a, mut b) = (a.clone(), b.clone());
    let mut seen: BTreeMap<[u8; 32], PS> = BTreeMap::new();
    for s in blinded_slots(&a) {
        seen.insert(slot_bytes(&mut a, &s), s);
    }
    for s in blinded_slots(&b) {
        let x = slot_bytes(&mut b, &s);
        if let Some(o) = seen.get(&x) {
            return violation(format!("{}: component {:?} of one proof equals {:?} of another proof of the same statement ({})", st.desc(), s, o, how));
        }
        obs.count("components compared", 1);
    }
    obs.seen("proofs of one statement compared");
    Ok(())
}
/// The same map with another witness; half of the time one with zero, small or repeated entries.
fn reshape(st: Stmt, wit: Wit, rng: &mut Rng) -> (Stmt, Wit) {
    if rng.gen_range(0, 2) == 0 {
        return (st, wit);
    }
    match (st, wit) {
        (Stmt::Lm2 { a, zk, .. }, Wit::Lm(w)) => {
            let w = vec_of(w.len(), Style::Odd, rng);
            let t = pmv(&a, &w);
            (Stmt::Lm2 { a, t, zk }, Wit::Lm(w))
        }
        (Stmt::LmK { a, zk, k, .. }, Wit::Lm(w)) => {
            let w = vec_of(w.len(), Style::Odd, rng);
            let t = pmv(&a, &w);
            (Stmt::LmK { a, t, k, zk }, Wit::Lm(w))
        }
        x => x,
    }
}
/// Several proofs of one statement, from one process, with the real generator.
fn c13_fresh(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = ZK[rng.gen_range(0, ZK.len())];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let (st, wit) = reshape(st, wit, rng);
    let (c1, c2) = (Ctx::gen(rng), Ctx::gen(rng));
    obs.shape(st.desc());
    rand::rngs::vp::uninstall();
    let ctxs = if rng.gen_range(0, 2) == 0 { vec![&c1, &c1, &c1] } else { vec![&c1, &c2, &c1] };
    let mut proofs = Vec::new();
    for c in ctxs {
        match prove(&st, &wit, &mut c.tr()) {
            Ok(p) => proofs.push(p),
            Err(_) => {
                obs.count("no proof", 1);
                return Ok(());
            }
        }
    }
    // one more from another thread
    let other = std::thread::scope(|s| s.spawn(|| prove(&st, &wit, &mut c1.tr())).join());
    if let Ok(Ok(p)) = other {
        proofs.push(p);
    }
    for i in 0..proofs.len() {
        for j in 0..i {
            fresh_cmp(&st, &proofs[j], &proofs[i], "one process", obs)?;
        }
        unblinded(&st, &wit, &proofs[i])?;
    }
    Ok(())
}
/// A published vector must not be the witness itself, or a public multiple of it.
fn unblinded(st: &Stmt, wit: &Wit, p: &Proof) -> Res {
    if let (Wit::Lm(w), Proof::LmK { z, .. }) = (wit, p) {
        if z.u.is_empty() && z.w.len() == w.len() && w.len() > 1 {
            let i = w.iter().position(|x| *x != S::zero()).unwrap_or(0);
            let c = z.w[i] * w[i].invert();
            ensure!(
                !z.w.iter().zip(w).all(|(x, y)| *x == c * y),
                "{}: the proof publishes a multiple of the witness", st.desc()
            );
        }
        if z.u.is_empty() {
            ensure!(!z.w.iter().zip(w).any(|(x, y)| x == y), "{}: the proof publishes an entry of the witness", st.desc());
        }
    }
    Ok(())
}

/// Proofs of one statement by two processes: what a child process publishes.
pub fn c13_child(seed: u64, still: bool) {
    use rand::SeedableRng;
    if still {
        crate::fake::enter(crate::fake::World { still: true, ..crate::fake::REAL });
    }
    for (i, kind) in ZK.iter().enumerate() {
        let mut rng = Rng::seed_from_u64(case_seed(seed, "C13", "child", i as u64));
        let ctx = Ctx::gen(&mut rng);
        if let Ok((st, wit)) = gen_any(*kind, 8, Style::Dense, false, &mut rng) {
            for round in 0..2 {
                if let Ok(mut p) = prove(&st, &wit, &mut ctx.tr()) {
                    for s in blinded_slots(&p) {
                        let b = slot_bytes(&mut p, &s);
                        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                        println!("{:?}|{}|{:?}|{}", kind, round, s, h);
                    }
                }
            }
        }
    }
}
/// Two processes that agree in everything an observer can know: the time, their numbers, their addresses.
fn c13_processes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let seed = rng.next_u64() >> 1;
    let still = nth() % 2 == 0;
    obs.shape(format!("every zero-knowledge protocol in two processes{}", if still { " at one time and place" } else { "" }));
    fp(&seed.to_le_bytes());
    let exe = std::env::current_exe().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let mut outs = Vec::new();
    let kids: Vec<_> = (0..2)
        .map(|_| {
            let mut c = std::process::Command::new(&exe);
            c.arg("c13child").arg(seed.to_string());
            if still {
                use std::os::unix::process::CommandExt;
                extern "C" {
                    fn personality(p: std::os::raw::c_ulong) -> std::os::raw::c_int;
                }
                c.arg("still");
                // no randomised addresses
                unsafe {
                    c.pre_exec(|| {
                        personality(0x0040000);
                        Ok(())
                    });
                }
            }
            c.stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
        })
        .collect();
    for k in kids {
        let o = k.and_then(|k| k.wait_with_output()).map_err(|e| Fail::Inconclusive(format!("a child process: {}", e)))?;
        if !o.status.success() {
            return Err(Fail::Inconclusive(format!("a child process ended with {}", o.status)));
        }
        outs.push(String::from_utf8_lossy(&o.stdout).to_string());
    }
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (i, o) in outs.iter().enumerate() {
        for l in o.lines() {
            let h = match l.rsplit('|').next() {
                Some(h) if h.len() == 64 => h.to_string(),
                _ => continue,
            };
            if let Some(x) = seen.insert(h, format!("process {}: {}", i, l)) {
                // a value may repeat within one proof only if the proof says so (never for dense statements)
                return violation(format!("the published component {} is also published in {}", x, l));
            }
            obs.count("components compared", 1);
        }
    }
    if !seen.is_empty() {
        obs.seen(if still { "processes at one time compared" } else { "processes compared" });
    }
    Ok(())
}

// ------------------------------------------------------------ C13: recovering the masks

struct Lin {
    n: usize,
    rows: Vec<(usize, Vec<S>, S)>,
    bad: bool,
    extra: usize,
}
impl Lin {
    fn new(n: usize) -> Lin {
        Lin { n, rows: Vec::new(), bad: false, extra: 0 }
    }
    fn add(&mut self, mut r: Vec<S>, mut v: S) {
        for (p, q, w) in self.rows.iter() {
            let f = r[*p];
            if f != S::zero() {
                for j in 0..self.n {
                    r[j] -= f * q[j];
                }
                v -= f * w;
            }
        }
        match r.iter().position(|x| *x != S::zero()) {
            None => {
                if v != S::zero() {
                    self.bad = true;
                }
                self.extra += 1;
            }
            Some(p) => {
                let inv = r[p].invert();
                for x in r.iter_mut() {
                    *x *= inv;
                }
                v *= inv;
                for (_, q, w) in self.rows.iter_mut() {
                    let f = q[p];
                    if f != S::zero() {
                        for j in 0..self.n {
                            q[j] -= f * r[j];
                        }
                        *w -= f * v;
                    }
                }
                self.rows.push((p, r, v));
            }
        }
    }
    fn rank(&self) -> usize {
        self.rows.len()
    }
    /// The solution, if it is unique and confirmed by surplus equations.
    fn solution(&self) -> Option<Vec<S>> {
        if self.bad || self.rank() < self.n || self.extra == 0 {
            return None;
        }
        let mut v = vec![S::zero(); self.n];
        for (p, _, w) in self.rows.iter() {
            v[*p] = *w;
        }
        Some(v)
    }
}
fn rank(vs: &[Vec<S>]) -> usize {
    let mut l = Lin::new(vs[0].len());
    for v in vs {
        l.add(v.clone(), S::zero());
    }
    l.rank()
}
fn small(s: &S) -> bool {
    let z = |x: &S| x.as_bytes()[17..].iter().all(|b| *b == 0);
    z(s) || z(&-s)
}
static MASKS: Mutex<BTreeMap<&'static str, Vec<[u8; 32]>>> = Mutex::new(BTreeMap::new());

/// Relations that independent full-range values do not have.
fn independent(v: &[S], idx: &[usize], what: &str) -> Res {
    let mut seen = HashSet::new();
    for &i in idx {
        ensure!(v[i] != S::zero(), "{}: entry {} of {} is not masked", what, i, v.len());
        ensure!(!small(&v[i]), "{}: the mask of entry {} of {} is small: {:?}", what, i, v.len(), v[i]);
        ensure!(seen.insert(*v[i].as_bytes()), "{}: the mask of entry {} of {} repeats", what, i, v.len());
        ensure!(seen.insert(*(-v[i]).as_bytes()), "{}: the mask of entry {} of {} is the opposite of another", what, i, v.len());
    }
    for &i in idx {
        let inv = v[i].invert();
        for &j in idx {
            if i == j {
                continue;
            }
            ensure!(!small(&(v[j] * inv)), "{}: the mask of entry {} is a small multiple of that of entry {}", what, j, i);
            ensure!(!small(&(v[j] - v[i])), "{}: the masks of entries {} and {} have a small difference", what, j, i);
            ensure!(v[j] != v[i] * v[i] && v[i] * v[j] != S::one(), "{}: the masks of entries {} and {} determine each other", what, i, j);
            for &k in idx {
                if k == i || k == j {
                    continue;
                }
                ensure!(v[j] * v[j] != v[i] * v[k], "{}: the masks of entries {}, {}, {} are in geometric progression", what, i, j, k);
                ensure!(v[j] + v[j] != v[i] + v[k], "{}: the masks of entries {}, {}, {} are in arithmetic progression", what, i, j, k);
                ensure!(v[i] * v[j] != v[k] && v[i] + v[j] != v[k], "{}: the masks of entries {}, {}, {} determine each other", what, i, j, k);
            }
        }
    }
    Ok(())
}
fn proof_challenges(ctx: &Ctx, tr: &merlin::Transcript) -> Vec<S> {
    let before = challenges(&log(&ctx.tr())).len();
    challenges(&log(tr))[before..].iter().map(|(_, b)| refimpl::wide(b)).collect()
}
fn fresh_ctx(i: usize, rng: &mut Rng) -> Ctx {
    let mut c = Ctx::gen(rng);
    c.evs.push(Ev::Msg(0, vec![i as u8]));
    c
}

/// Linear maps: w' = beta w + r is folded with public challenges; several contexts give r.
fn c13_lmpa(rng: &mut Rng, obs: &mut Obs) -> Res {
    let two = rng.gen_range(0, 2) == 0;
    let (st, wit, k) = if two {
        let n = [1usize, 2, 4, 8][rng.gen_range(0, 4)];
        let (s, w) = gen_lm2(rng.gen_range(1, 4), n, true, Style::Dense, rng);
        (s, w, 2)
    } else {
        let (k, n) = gen_kn(9, rng);
        let (s, w) = gen_lmk(rng.gen_range(1, 4), n, k, true, Style::Dense, rng);
        (s, w, k)
    };
    let (st, wit) = reshape(st, wit, rng);
    let w = match &wit {
        Wit::Lm(w) => w.clone(),
        _ => panic!(),
    };
    let n = w.len();
    obs.shape(st.desc());
    let mut masks = Vec::new();
    for _ in 0..3 {
        let script = rng.next_u64();
        let mut lin = Lin::new(n);
        for run in 0..n + 2 {
            let ctx = fresh_ctx(run, rng);
            rand::rngs::vp::install(Vec::new(), Some(script));
            let mut tr = ctx.tr();
            let p = match prove(&st, &wit, &mut tr) {
                Ok(p) => p,
                Err(_) => {
                    obs.count("no proof", 1);
                    return Ok(());
                }
            };
            let ch = proof_challenges(&ctx, &tr);
            if ch.is_empty() {
                obs.count("no challenges observed", 1);
                return Ok(());
            }
            let (beta, xs) = (ch[0], &ch[1..]);
            match &p {
                Proof::Lm2 { z, .. } => {
                    if 1usize << xs.len() != n {
                        obs.count("other rounds", 1);
                        return Ok(());
                    }
                    // the upper half of the index is kept, the lower half scaled
                    let co: Vec<S> = (0..n)
                        .map(|j| {
                            let mut c = S::one();
                            for (b, x) in xs.iter().enumerate() {
                                if (j >> (xs.len() - 1 - b)) & 1 == 0 {
                                    c *= x;
                                }
                            }
                            c
                        })
                        .collect();
                    let v = z.w - beta * ip(&co, &w);
                    lin.add(co, v);
                }
                Proof::LmK { z, .. } => {
                    let m = z.w.len();
                    if m == 0 || m * k.pow(xs.len() as u32) != n {
                        obs.count("other rounds", 1);
                        return Ok(());
                    }
                    let ys: Vec<S> = xs.iter().map(|x| x.invert()).collect();
                    for c in 0..m {
                        let mut co = vec![S::zero(); n];
                        for j in 0..n {
                            let (mut size, mut rem, mut f) = (n, j, S::one());
                            for y in ys.iter() {
                                size /= k;
                                for _ in 0..rem / size {
                                    f *= y;
                                }
                                rem %= size;
                            }
                            if rem == c {
                                co[j] = f;
                            }
                        }
                        let v = z.w[c] - beta * ip(&co, &w);
                        lin.add(co, v);
                    }
                }
                _ => panic!(),
            }
        }
        match lin.solution() {
            Some(r) => masks.push(r),
            None => {
                // the masks are not a function of the thread generator alone, or the last value is
                // not a folded blinded witness (which completeness and the reference decide)
                obs.count("masks not recovered", 1);
                return Ok(());
            }
        }
    }
    let what = st.desc();
    let all: Vec<usize> = (0..n).collect();
    for r in masks.iter() {
        independent(r, &all, &what)?;
        for (i, x) in r.iter().enumerate() {
            for (j, y) in w.iter().enumerate() {
                ensure!(x != y && *x != -y, "{}: the mask of entry {} is entry {} of the witness", what, i, j);
                ensure!(*y == S::zero() || !small(&(x * y.invert())), "{}: the mask of entry {} is a small multiple of entry {} of the witness", what, i, j);
                ensure!(!small(&(x - y)) && !small(&(x + y)), "{}: the mask of entry {} is close to entry {} of the witness", what, i, j);
            }
        }
    }
    for i in 0..n {
        ensure!(
            masks[0][i] != masks[1][i] && masks[1][i] != masks[2][i] && masks[0][i] != masks[2][i],
            "{}: the mask of entry {} does not depend on the generator", what, i
        );
    }
    ensure!(rank(&masks) == n.min(3), "{}: the masks of different proofs are linearly dependent", what);
    obs.seen("linear map masks recovered");
    obs.count("mask entries judged", 3 * n as u64);
    let mut g = MASKS.lock().unwrap();
    let e = g.entry("linear map masks").or_default();
    for r in masks.iter().flatten() {
        e.push(*r.as_bytes());
    }
    Ok(())
}

fn support(n: usize) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = [0, 1, n - 2, n - 1].iter().cloned().collect();
    let mut i = 2;
    while i + 1 < n {
        s.insert(i);
        s.insert(i + 1);
        i *= 2;
    }
    s
}
/// Masked inner product: both masks from the two published scalars.
fn c13_alm(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = if rng.gen_range(0, 6) == 0 { 16 } else { [4usize, 8][rng.gen_range(0, 2)] };
    // with zero vectors the masks are the samples themselves; otherwise they are orthogonalised
    let zero = rng.gen_range(0, 2) == 0;
    let (st, wit) = if zero {
        let crs = gen_crs(n, Style::Dense, rng);
        let z = vec![S::zero(); n];
        (Stmt::Alm { crs, c: P::identity(), t: S::zero() }, Wit::Ab(z.clone(), z))
    } else {
        gen_alm(n, Style::Dense, rng)
    };
    let (a, b) = match &wit {
        Wit::Ab(a, b) => (a.clone(), b.clone()),
        _ => panic!(),
    };
    obs.shape(format!("{} zero vectors={}", st.desc(), zero));
    let scripts = if zero { 2 } else { support(n).len() };
    let (mut m1, mut m2) = (Vec::new(), Vec::new());
    for _ in 0..scripts {
        let script = rng.next_u64();
        let (mut la, mut lb) = (Lin::new(n), Lin::new(n));
        for run in 0..n + 2 {
            let ctx = fresh_ctx(run, rng);
            rand::rngs::vp::install(Vec::new(), Some(script));
            let mut tr = ctx.tr();
            let p = match prove(&st, &wit, &mut tr) {
                Ok(Proof::Alm(p)) => p,
                _ => {
                    obs.count("no proof", 1);
                    return Ok(());
                }
            };
            let ch = proof_challenges(&ctx, &tr);
            if ch.len() < 2 || 1usize << (ch.len() - 2) != n {
                obs.count("other rounds", 1);
                return Ok(());
            }
            let (beta, xs) = (ch[0], &ch[2..]);
            let co = |bit: usize| -> Vec<S> {
                (0..n)
                    .map(|j| {
                        let mut c = S::one();
                        for (k, x) in xs.iter().enumerate() {
                            if (j >> (xs.len() - 1 - k)) & 1 == bit {
                                c *= x;
                            }
                        }
                        c
                    })
                    .collect()
            };
            let (ca, cb) = (co(0), co(1));
            let (va, vb) = (p.ipa.a - beta * ip(&ca, &a), p.ipa.b - beta * ip(&cb, &b));
            la.add(ca, va);
            lb.add(cb, vb);
        }
        match (la.solution(), lb.solution()) {
            (Some(x), Some(y)) => {
                m1.push(x);
                m2.push(y)
            }
            _ => {
                obs.count("masks not recovered", 1);
                return Ok(());
            }
        }
    }
    let what = st.desc();
    let sup: Vec<usize> = support(n).into_iter().collect();
    for (x, y) in m1.iter().zip(&m2) {
        independent(x, &sup, &format!("{}, first mask", what))?;
        independent(y, &sup, &format!("{}, second mask", what))?;
        for &i in sup.iter() {
            ensure!(!small(&(x[i] * y[i].invert())) && !small(&(y[i] * x[i].invert())), "{}: the two masks of entry {} are multiples of each other", what, i);
            for &j in sup.iter() {
                ensure!(x[i] != y[j] && x[i] != -y[j], "{}: the two masks share a value (entries {} and {})", what, i, j);
            }
        }
        ensure!(rank(&[x.clone(), y.clone()]) == 2, "{}: the two masks are parallel", what);
        if !zero {
            ensure!(rank(&[x.clone(), a.clone()]) == 2 && rank(&[y.clone(), b.clone()]) == 2, "{}: a mask is a multiple of what it masks", what);
            ensure!(rank(&[x.clone(), b.clone()]) == 2 && rank(&[y.clone(), a.clone()]) == 2, "{}: a mask is a multiple of the witness", what);
        }
    }
    for i in 1..m1.len() {
        for &j in sup.iter() {
            ensure!(m1[i][j] != m1[i - 1][j] && m2[i][j] != m2[i - 1][j], "{}: the mask of entry {} does not depend on the generator", what, j);
        }
    }
    if !zero {
        // orthogonality takes one dimension from the first mask
        let want = sup.len().min(n - 1);
        let r = rank(&m1);
        ensure!(r >= want, "{}: {} independent samples of the first mask span {} dimensions, expected {}", what, m1.len(), r, want);
        let r = rank(&m2);
        ensure!(r >= want, "{}: {} independent samples of the second mask span {} dimensions, expected {}", what, m2.len(), r, want);
    }
    obs.seen("inner product masks recovered");
    obs.count("mask entries judged", (2 * m1.len() * sup.len()) as u64);
    let mut g = MASKS.lock().unwrap();
    let e = g.entry("inner product masks").or_default();
    for r in m1.iter().chain(m2.iter()) {
        for &i in sup.iter() {
            e.push(*r[i].as_bytes());
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C13: what the generator decides

/// One published point that isolates one blinding value: the statement with a single generator.
struct Probe {
    name: String,
    st: Stmt,
    wit: Wit,
    slot: PS,
}
fn isolate(st: &Stmt, g: Option<usize>, h: Option<usize>) -> Stmt {
    let mut st = st.clone();
    if let Stmt::Quad { crs, .. } | Stmt::Copy { crs, .. } | Stmt::Alm { crs, .. } = &mut st {
        for (i, x) in crs.g.iter_mut().enumerate() {
            *x = if Some(i) == g { RISTRETTO_BASEPOINT_POINT } else { P::identity() };
        }
        for (i, x) in crs.h.iter_mut().enumerate() {
            *x = if Some(i) == h { RISTRETTO_BASEPOINT_POINT } else { P::identity() };
        }
    }
    st
}
fn observe(pr: &Probe, prefix: &[u8], seed: u64) -> Result<(P, usize), String> {
    rand::rngs::vp::install(prefix.to_vec(), Some(seed));
    let c = Ctx { label: 0, evs: vec![] };
    let r = prove(&pr.st, &pr.wit, &mut c.tr());
    let (_, bytes) = rand::rngs::vp::uninstall();
    let mut p = r?;
    let x = match slot(&mut p, &pr.slot) {
        Slot::C(c) => c.decompress().ok_or("not a point")?,
        Slot::P(x) => *x,
        Slot::S(_) => return Err("not a point".into()),
    };
    Ok((x, bytes as usize))
}
fn c13_probe(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = ZK[rng.gen_range(0, ZK.len())];
    let max = match kind {
        Kind::Copy => 8,
        Kind::Quad | Kind::Alm => 4,
        _ => 4,
    };
    // groups of probes that must be independent of each other
    let mut groups: Vec<Vec<Probe>> = Vec::new();
    let mut wvals: Vec<S> = Vec::new();
    let desc;
    match kind {
        Kind::Quad | Kind::Copy => {
            let style = if rng.gen_range(0, 2) == 0 { Style::Odd } else { Style::Dense };
            let (st, wit) = match gen_any(kind, max, style, false, rng) {
                Ok(x) => x,
                Err(_) => return Ok(()),
            };
            desc = st.desc();
            let n = st.crs().unwrap().g.len();
            let first = if kind == Kind::Quad { PS::Cp } else { PS::Cw };
            let mk = |g: Option<usize>, h: Option<usize>, slot: PS| Probe {
                name: format!("{:?} on {:?}/{:?}", slot, g, h), st: isolate(&st, g, h), wit: wit.clone(), slot,
            };
            groups.push(vec![mk(Some(n - 2), None, first), mk(Some(n - 1), None, first)]);
            groups.push(vec![mk(None, Some(n - 2), PS::Cpp), mk(None, Some(n - 1), PS::Cpp)]);
            groups.push(vec![mk(Some(rng.gen_range(0, 4)), None, PS::Cr), mk(None, Some(rng.gen_range(0, 4)), PS::Cr)]);
            match &wit {
                Wit::Quad(w) => wvals = w.clone(),
                Wit::Copy { w, openings } => {
                    wvals = w.clone();
                    for (m, r) in openings {
                        wvals.extend(m);
                        wvals.push(*r);
                    }
                }
                _ => {}
            }
        }
        Kind::Alm => {
            let (st, wit) = gen_alm(4, Style::Dense, rng);
            desc = st.desc();
            let mk = |g: Option<usize>, h: Option<usize>| Probe {
                name: format!("C_r on {:?}/{:?}", g, h), st: isolate(&st, g, h), wit: wit.clone(), slot: PS::Cr,
            };
            let (i, j) = (rng.gen_range(0, 4), rng.gen_range(1, 4));
            groups.push(vec![mk(Some(i), None), mk(Some((i + j) % 4), None)]);
            groups.push(vec![mk(None, Some(i)), mk(None, Some((i + j) % 4))]);
            if let Wit::Ab(a, b) = &wit {
                wvals = a.iter().chain(b).cloned().collect();
            }
        }
        _ => {
            let (k, n) = if kind == Kind::Lm2Zk { (2, [2usize, 4][rng.gen_range(0, 2)]) } else { gen_kn(6, rng) };
            let mut a: PMat = vec![vec![P::identity(); n]; n];
            for i in 0..n {
                a[i][i] = RISTRETTO_BASEPOINT_POINT;
            }
            let w = if rng.gen_range(0, 2) == 0 { vec_of(n, Style::Odd, rng) } else { scs(rng, n) };
            let t = pmv(&a, &w);
            let st = if kind == Kind::Lm2Zk { Stmt::Lm2 { a, t, zk: true } } else { Stmt::LmK { a, t, k, zk: true } };
            desc = st.desc();
            let i = rng.gen_range(0, n);
            let mut g = vec![i];
            if n > 1 {
                g.push((i + rng.gen_range(1, n)) % n);
            }
            groups.push(
                g.into_iter()
                    .map(|i| Probe { name: format!("mask commitment row {}", i), st: st.clone(), wit: Wit::Lm(w.clone()), slot: PS::Mask(i) })
                    .collect(),
            );
            wvals = w;
        }
    }
    obs.shape(desc.clone());
    let seed = rng.next_u64();
    for grp in groups.iter() {
        let mut sens: Vec<BTreeSet<usize>> = Vec::new();
        let mut vals: Vec<P> = Vec::new();
        let mut judged = true;
        for pr in grp {
            let what = format!("{}: {}", desc, pr.name);
            let (x, bytes) = match observe(pr, &[], seed) {
                Ok(x) => x,
                Err(_) => {
                    obs.count("no proof", 1);
                    return Ok(());
                }
            };
            let (y, _) = observe(pr, &[], seed ^ 1).map_err(|e| Fail::Inconclusive(e))?;
            ensure!(x != P::identity(), "{}: not blinded: the blinding value is zero", what);
            let b = RISTRETTO_BASEPOINT_POINT;
            let mut acc = b;
            for j in 0..512 {
                ensure!(x != acc && x != -acc, "{}: the blinding value is +-{}", what, j + 1);
                acc += b;
            }
            // powers of two
            let mut acc = b;
            for j in 0..256 {
                ensure!(x != acc && x != -acc, "{}: the blinding value is +-2^{}", what, j);
                acc += acc;
            }
            for w in wvals.iter().filter(|w| **w != S::zero()) {
                let v = gp(w);
                ensure!(x != v && x != -v, "{}: the blinding value is an entry of the witness", what);
            }
            ensure!(x != y, "{}: the blinding value does not depend on the generator", what);
            // several draws decide the value, byte by byte
            let mut prefix = vec![0u8; bytes];
            rng.fill_bytes(&mut prefix);
            let (x0, _) = observe(pr, &prefix, seed).map_err(|e| Fail::Inconclusive(e))?;
            let (x1, _) = observe(pr, &prefix, seed).map_err(|e| Fail::Inconclusive(e))?;
            if bytes == 0 || x0 != x1 {
                obs.count("randomness from elsewhere", 1);
                judged = false;
                break;
            }
            vals.push(x);
            let mut s = BTreeSet::new();
            let need = 64;
            for i in 0..bytes {
                let mut q = prefix.clone();
                q[i] ^= 1 << rng.gen_range(0, 8);
                let (v, _) = observe(pr, &q, seed).map_err(|e| Fail::Inconclusive(e))?;
                obs.count("single-byte changes of the generator observed", 1);
                if v != x0 {
                    s.insert(i);
                    // further bytes matter only for the comparison with the others of the group
                    if s.len() >= need + 64 * sens.len() {
                        break;
                    }
                }
            }
            ensure!(s.len() >= 31, "{}: only {} bytes of the generator decide the blinding value", what, s.len());
            sens.push(s);
        }
        if judged {
            for i in 0..vals.len() {
                for j in 0..i {
                    ensure!(vals[i] != vals[j] && vals[i] != -vals[j], "{}: {} and {} have the same blinding value", desc, grp[i].name, grp[j].name);
                    let u = sens[i].union(&sens[j]).count();
                    // a generator of its own, seeded with 32 bytes, is as good
                    if sens[i] == sens[j] && (31..=32).contains(&u) {
                        let (mut x, mut y) = (P::identity(), P::identity());
                        let mut m: HashSet<[u8; 32]> = HashSet::new();
                        for _ in 0..64 {
                            x += vals[i];
                            m.insert(*x.compress().as_bytes());
                            m.insert(*(-x).compress().as_bytes());
                        }
                        for _ in 0..64 {
                            y += vals[j];
                            ensure!(!m.contains(y.compress().as_bytes()), "{}: {} and {} are small multiples of each other", desc, grp[i].name, grp[j].name);
                        }
                        continue;
                    }
                    ensure!(u >= 62, "{}: {} and {} are decided by the same {} bytes of the generator", desc, grp[i].name, grp[j].name, u);
                }
            }
            obs.seen("blinding values probed");
        }
    }
    Ok(())
}
/// Blinding values seen in one walk, as multiples of the base point.
struct Seen {
    raw: BTreeMap<[u8; 32], String>,
    near: BTreeMap<[u8; 32], String>,
    last: Vec<(P, String)>,
}
impl Seen {
    fn new() -> Seen {
        Seen { raw: BTreeMap::new(), near: BTreeMap::new(), last: Vec::new() }
    }
    /// Adds the values of one proof.
    fn add(&mut self, new: &[(P, String)], obs: &mut Obs) -> Res {
        let b = RISTRETTO_BASEPOINT_POINT;
        for (x, what) in new {
            ensure!(*x != P::identity(), "{} is not blinded", what);
            let k = *x.compress().as_bytes();
            for (m, how) in [(&self.raw, "equals"), (&self.near, "is close to, opposite to or a small multiple of")].iter() {
                if let Some(o) = m.get(&k) {
                    return violation(format!("{} {} {}", what, how, o));
                }
            }
            for v in [x + b, x - b, x + x, -(x + x), x + x + x].iter() {
                let k = *v.compress().as_bytes();
                if let Some(o) = self.raw.get(&k) {
                    return violation(format!("{} is close to {}", what, o));
                }
                self.near.insert(k, what.clone());
            }
            self.near.insert(*(-x).compress().as_bytes(), what.clone());
            self.raw.insert(k, what.clone());
            obs.count("blinding values of a walk compared", 1);
        }
        // sums and differences, within a proof and with the proof before
        let around: Vec<&(P, String)> = self.last.iter().chain(new).collect();
        for i in 0..around.len().min(12) {
            for j in 0..i {
                for v in [around[i].0 + around[j].0, around[i].0 - around[j].0, around[j].0 - around[i].0].iter() {
                    if let Some(o) = self.raw.get(v.compress().as_bytes()) {
                        return violation(format!("{} is the sum or difference of {} and {}", o, around[i].1, around[j].1));
                    }
                }
            }
        }
        self.last = new.to_vec();
        Ok(())
    }
}
/// One proof under generators that publish its blinding values as points.
fn exposed(kind: Kind, tag: &str, rng: &mut Rng) -> Vec<(P, String)> {
    let b = RISTRETTO_BASEPOINT_POINT;
    let ctx = Ctx::gen(rng);
    let mut out = Vec::new();
    match kind {
        Kind::Quad | Kind::Copy => {
            let (st, wit) = match gen_any(kind, 8, Style::Dense, false, rng) {
                Ok(x) => x,
                Err(_) => return out,
            };
            let n = st.crs().unwrap().g.len();
            let c = sc_nz(rng);
            let mut st = isolate(&st, Some(n - 2), Some(n - 1));
            if let Stmt::Quad { crs, .. } | Stmt::Copy { crs, .. } = &mut st {
                crs.g[n - 1] = gp(&c);
            }
            if let Ok(mut p) = prove(&st, &wit, &mut ctx.tr()) {
                let mut point = |s: PS| match slot(&mut p, &s) {
                    Slot::C(x) => x.decompress(),
                    _ => None,
                };
                let first = if kind == Kind::Quad { PS::Cp } else { PS::Cw };
                if let (Some(d), Some(r0)) = (point(first), point(PS::Cpp)) {
                    let r1 = (d - r0) * c.invert();
                    out.push((r0, format!("{}: {}, the first blinding entry", tag, st.desc())));
                    out.push((r1, format!("{}: {}, the second blinding entry", tag, st.desc())));
                }
            }
        }
        Kind::Alm => {
            // zero vectors: the first mask is what was sampled
            let n = [2usize, 4][rng.gen_range(0, 2)];
            let z = vec![S::zero(); n];
            let st = Stmt::Alm { crs: gen_crs(n, Style::Dense, rng), c: P::identity(), t: S::zero() };
            let i = rng.gen_range(0, n);
            let (st, side) = if rng.gen_range(0, 2) == 0 { (isolate(&st, Some(i), None), "first") } else { (isolate(&st, None, Some(i)), "second") };
            if let Ok(Proof::Alm(p)) = prove(&st, &Wit::Ab(z.clone(), z), &mut ctx.tr()) {
                if let Some(x) = p.cr.decompress() {
                    out.push((x, format!("{}: {}, entry {} of the {} mask", tag, st.desc(), i, side)));
                }
            }
        }
        _ => {
            let (k, n) = if kind == Kind::Lm2Zk { (2, [1usize, 2, 4][rng.gen_range(0, 3)]) } else { gen_kn(6, rng) };
            let mut a: PMat = vec![vec![P::identity(); n]; n];
            for i in 0..n {
                a[i][i] = b;
            }
            let w = scs(rng, n);
            let t = pmv(&a, &w);
            let st = if kind == Kind::Lm2Zk { Stmt::Lm2 { a, t, zk: true } } else { Stmt::LmK { a, t, k, zk: true } };
            if let Ok(mut p) = prove(&st, &Wit::Lm(w), &mut ctx.tr()) {
                for i in 0..n {
                    let x = match slot(&mut p, &PS::Mask(i)) {
                        Slot::C(x) => x.decompress(),
                        Slot::P(x) => Some(*x),
                        _ => None,
                    };
                    if let Some(x) = x {
                        out.push((x, format!("{}: {}, mask entry {}", tag, st.desc(), i)));
                    }
                }
            }
        }
    }
    out
}
/// Blinding values of many proofs one after the other, with the real generator: none is used twice,
/// in the same or in another place, protocol or thread.
fn c13_walk(rng: &mut Rng, obs: &mut Obs) -> Res {
    use rand::SeedableRng;
    rand::rngs::vp::uninstall();
    let only = match rng.gen_range(0, 3) {
        0 => Some(ZK[rng.gen_range(0, ZK.len())]),
        _ => None,
    };
    let len = if obs.thorough { 120 } else { 40 };
    obs.shape(format!("walk of {} proofs, {:?}", len, only));
    let walk = |name: &str, seed: u64| -> Vec<Vec<(P, String)>> {
        let mut rng = Rng::seed_from_u64(seed);
        (0..len)
            .map(|i| {
                let kind = only.unwrap_or(ZK[rng.gen_range(0, ZK.len())]);
                exposed(kind, &format!("{} proof {}", name, i), &mut rng)
            })
            .collect()
    };
    let (s1, s2) = (rng.next_u64(), rng.next_u64());
    fp(&s1.to_le_bytes());
    let (here, other) = std::thread::scope(|s| {
        let t = s.spawn(|| walk("other thread,", s2));
        (walk("", s1), t.join().unwrap_or_default())
    });
    let mut seen = Seen::new();
    for v in here.iter().chain(other.iter()) {
        seen.add(v, obs)?;
    }
    if seen.raw.len() > len / 2 {
        obs.seen("walks compared");
    }
    Ok(())
}
/// The masks of long witnesses, entry by entry: a diagonal map shows each as a point.
fn c13_large(rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    let list = [(0usize, 128usize), (2, 128), (0, 64), (3, 81), (0, 256), (5, 125), (0, 32), (4, 64), (2, 32), (7, 49), (0, 16)];
    let (k, n) = list[nth() as usize % list.len()];
    let mut a: PMat = vec![vec![P::identity(); n]; n];
    for i in 0..n {
        a[i][i] = RISTRETTO_BASEPOINT_POINT;
    }
    let w = match rng.gen_range(0, 3) {
        0 => vec![S::zero(); n],
        1 => vec![sc(rng); n],
        _ => scs(rng, n),
    };
    let t: Vec<P> = w.iter().map(gp).collect();
    let st = if k == 0 { Stmt::Lm2 { a, t: t.clone(), zk: true } } else { Stmt::LmK { a, t: t.clone(), k, zk: true } };
    obs.shape(format!("{} mask", st.desc()));
    let ctx = Ctx::gen(rng);
    let scripted = rng.gen_range(0, 2) == 0;
    if scripted {
        rand::rngs::vp::install(Vec::new(), Some(rng.next_u64()));
    }
    let p = prove(&st, &Wit::Lm(w), &mut ctx.tr());
    let drawn = if scripted { Some(rand::rngs::vp::uninstall().1) } else { None };
    let mut p = match p {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    fp(&digest(&p).to_le_bytes());
    let v: Vec<P> = (0..n)
        .filter_map(|i| match slot(&mut p, &PS::Mask(i)) {
            Slot::C(x) => x.decompress(),
            Slot::P(x) => Some(*x),
            _ => None,
        })
        .collect();
    ensure!(v.len() == n, "{}: {} of {} entries of the mask are published", st.desc(), v.len(), n);
    if let Some(d) = drawn {
        // none at all: another generator than the process' own
        ensure!(d == 0 || d >= 32 * n as u64, "{}: {} random bytes for a mask of {} entries", st.desc(), d, n);
    }
    // small multiples of one another, of the base point or of the target
    let mut seen: std::collections::HashMap<[u8; 32], String> = Default::default();
    let mut put = |x: P, name: String| -> Res {
        match seen.insert(x.compress().to_bytes(), name.clone()) {
            Some(old) => violation(format!("{}: {} equals {}", st.desc(), name, old)),
            None => Ok(()),
        }
    };
    let mut acc = P::identity();
    for j in 0..64 {
        put(acc, format!("{} times the base point", j))?;
        acc += RISTRETTO_BASEPOINT_POINT;
        if j > 0 {
            put(-(S::from(j as u64) * RISTRETTO_BASEPOINT_POINT), format!("-{} times the base point", j))?;
        }
    }
    let mut ts: Vec<&P> = t.iter().collect();
    ts.dedup();
    for (i, x) in ts.iter().enumerate().filter(|x| **x.1 != P::identity()) {
        put(**x, format!("entry {} of the target", i))?;
        put(-**x, format!("minus entry {} of the target", i))?;
    }
    for i in 0..n {
        let mut acc = v[i];
        for c in 1..4 {
            put(acc, format!("{} times entry {} of the mask", c, i))?;
            put(-acc, format!("-{} times entry {} of the mask", c, i))?;
            acc += v[i];
        }
        for (name, j) in [("before", i + 1), ("two before", i + 2)].iter() {
            if *j < n {
                put(v[*j] - v[i], format!("the step {} entry {} of the mask", name, j))?;
            }
        }
        if i + 1 < n {
            put(v[i + 1] - v[i] - v[i], format!("entry {} of the mask minus twice the one before", i + 1))?;
        }
    }
    obs.seen("long masks compared");
    Ok(())
}
fn gp(s: &S) -> P {
    s * RISTRETTO_BASEPOINT_POINT
}
fn c13_finish(obs: &mut Obs) -> Res {
    let g = MASKS.lock().unwrap();
    for (k, v) in g.iter() {
        obs.count(&format!("{} in the distribution", k), v.len() as u64);
        bit_bias(v, k)?;
        let set: HashSet<_> = v.iter().collect();
        ensure!(set.len() == v.len(), "{}: a value repeats among {}", k, v.len());
    }
    Ok(())
}

// ------------------------------------------------------------ C15

/// One challenge per commitment precedes the inner argument.
fn aggregation_challenges(st: &Stmt) -> usize {
    match st {
        Stmt::Copy { coms, .. } => coms.len(),
        _ => 0,
    }
}
/// First challenge that must depend on a proof component; None: nothing follows it.
fn first_after(st: &Stmt, s: &PS) -> Option<usize> {
    let zk = match st {
        Stmt::Lm2 { zk, .. } | Stmt::LmK { zk, .. } => *zk as usize,
        _ => 0,
    };
    let copy = aggregation_challenges(st);
    if let Stmt::Alm { .. } = st {
        return match *s {
            PS::Cr => Some(0),
            PS::L(i) | PS::R(i) => Some(2 + i),
            _ => None,
        };
    }
    match *s {
        PS::Cw => Some(0),
        PS::Cp => Some(copy),
        PS::Cpp => Some(2 + copy),
        PS::Cr => Some(5 + copy),
        PS::L(i) | PS::R(i) => Some(7 + copy + i),
        PS::Mask(_) => Some(0),
        PS::M2L(i, _) | PS::M2R(i, _) => Some(i + zk),
        PS::KU(i, _, _) => Some(i + zk),
        _ => None,
    }
}
fn stmt_first(st: &Stmt, s: &SS) -> Option<usize> {
    let copy = aggregation_challenges(st);
    match s {
        SS::Gamma(..) => Some(copy),
        SS::Com(_) | SS::A(..) | SS::Tv(_) => Some(0),
        // the masked product's claim: everything after the masked commitment depends on it
        SS::P | SS::T => match st {
            Stmt::Alm { .. } => Some(1),
            _ => None,
        },
        _ => None,
    }
}
fn chal_bytes(ctx: &Ctx, tr: &merlin::Transcript) -> Vec<Vec<u8>> {
    let before = challenges(&log(&ctx.tr())).len();
    challenges(&log(tr)).into_iter().skip(before).map(|(_, b)| b).collect()
}
/// Runs the verifier on changed input and compares every challenge from `first` on.
fn compare(st: &Stmt, p: &Proof, ctx: &Ctx, want: &[Vec<u8>], first: usize, what: &str, obs: &mut Obs) -> Res {
    let mut tr = ctx.tr();
    let v = match verify(st, p, &mut tr) {
        Ok(v) => v,
        Err(_) => {
            obs.count("verifier failed", 1);
            return Ok(());
        }
    };
    let got = chal_bytes(ctx, &tr);
    if got.len() <= first {
        ensure!(!v, "{}: accepted, without drawing challenge {}, although {}", st.desc(), first, what);
        obs.count("rejected before the challenge", 1);
        return Ok(());
    }
    for i in first..got.len().min(want.len()) {
        ensure!(got[i] != want[i], "{}: challenge {} is the same although {}", st.desc(), i, what);
        obs.count("challenges compared", 1);
    }
    obs.seen("changes compared");
    Ok(())
}
fn c15_case(rng: &mut Rng) -> Option<(Stmt, Wit)> {
    let kinds = [Kind::Alm, Kind::Quad, Kind::Copy, Kind::Lm2, Kind::Lm2Zk, Kind::LmK, Kind::LmKZk];
    let kind = kinds[rng.gen_range(0, kinds.len())];
    gen_any(kind, 16, Style::Dense, true, rng).ok()
}
/// Adds a value to one component and takes it from another of the same sort.
fn shift(p: &mut Proof, a: &PS, b: &PS, rng: &mut Rng) -> bool {
    let (d, e) = (pt(rng), sc_nz(rng));
    let mut done = 0;
    for (s, neg) in [(a, false), (b, true)].iter() {
        let (d, e) = if *neg { (-d, -e) } else { (d, e) };
        match slot(p, s) {
            Slot::C(c) => {
                if let Some(x) = c.decompress() {
                    *c = (x + d).compress();
                    done += 1;
                }
            }
            Slot::P(x) => {
                *x += d;
                done += 1;
            }
            Slot::S(x) => {
                *x += e;
                done += 1;
            }
        }
    }
    done == 2
}
fn exchange(p: &mut Proof, a: &PS, b: &PS) -> bool {
    let (x, y) = (slot_bytes(p, a), slot_bytes(p, b));
    if x == y {
        return false;
    }
    enum V {
        C(C),
        P(P),
        S(S),
    }
    let get = |p: &mut Proof, s: &PS| match slot(p, s) {
        Slot::C(c) => V::C(*c),
        Slot::P(x) => V::P(*x),
        Slot::S(x) => V::S(*x),
    };
    let (va, vb) = (get(p, a), get(p, b));
    for (s, v) in [(a, &vb), (b, &va)].iter() {
        match (slot(p, s), v) {
            (Slot::C(c), V::C(n)) => *c = *n,
            (Slot::P(c), V::P(n)) => *c = *n,
            (Slot::S(c), V::S(n)) => *c = *n,
            _ => return false,
        }
    }
    true
}
fn c15_messages(rng: &mut Rng, obs: &mut Obs) -> Res {
    match c15_case(rng) {
        Some((st, wit)) => c15_messages_at(st, wit, if obs.thorough { 24 } else { 10 }, pick, rng, obs),
        None => Ok(()),
    }
}
/// Large statements: what comes late in them, or beyond some power of two, counts as well.
fn c15_large(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<Size> = Vec::new();
    {
        let mut add = |kind: Kind, n: usize, m: usize, k: usize| v.push(Size { kind, n, m, k });
        add(Kind::Lm2, 512, 3, 1);
        add(Kind::Quad, 256, 1, 1);
        add(Kind::LmK, 243, 3, 3);
        add(Kind::Copy, 128, 1, 70);
        add(Kind::Lm2Zk, 64, 40, 1);
        add(Kind::Quad, 8, 130, 1);
        add(Kind::LmKZk, 64, 20, 4);
        add(Kind::Alm, 1024, 1, 1);
        add(Kind::Lm2, 4096, 1, 1);
        add(Kind::Quad, 4, 300, 1);
        add(Kind::LmKZk, 3, 300, 3);
        add(Kind::Copy, 64, 3, 40);
        add(Kind::Lm2Zk, 2, 300, 1);
        add(Kind::Quad, 128, 2, 1);
        add(Kind::LmK, 200, 2, 200);
        add(Kind::Lm2Zk, 2048, 2, 1);
        add(Kind::LmKZk, 2187, 1, 3);
        add(Kind::Copy, 256, 1, 2);
        if obs.thorough {
            add(Kind::Quad, 512, 1, 1);
            add(Kind::Lm2, 16_384, 1, 1);
            add(Kind::Copy, 512, 1, 260);
            add(Kind::LmK, 4096, 2, 4);
            add(Kind::Quad, 16, 400, 1);
        }
    }
    let z = walk(&v);
    let (st, wit) = match gen_sized(z, Style::Dense, rng) {
        Ok(x) => x,
        Err(_) => {
            obs.count("no case", 1);
            return Ok(());
        }
    };
    obs.seen("large statements");
    c15_statement_at(st.clone(), wit.clone(), 4, pick_edges, rng, obs)?;
    c15_messages_at(st, wit, 4, pick_edges, rng, obs)
}
fn c15_messages_at(st: Stmt, wit: Wit, k: usize, pick: fn(&[(PS, usize)], usize, &mut Rng) -> Vec<(PS, usize)>, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = match baseline(&st, &wit, &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut tr = ctx.tr();
    let _ = verify(&st, &p, &mut tr);
    let want = chal_bytes(&ctx, &tr);
    let slots: Vec<(PS, usize)> = proof_slots(&p).into_iter().filter_map(|s| first_after(&st, &s).map(|f| (s, f))).collect();
    for (s, f) in pick(&slots, k, rng) {
        let (q, how) = tamper_proof(&p, &s, rng);
        compare(&st, &q, &ctx, &want, f, &format!("{:?} of the proof was changed ({})", s, how), obs)?;
    }
    // two components at once, so that sums and sets of messages stay the same
    for _ in 0..k / 2 {
        if slots.len() < 2 {
            break;
        }
        let two = crate::props_verdict::pick(&slots, 2, rng);
        let (mut q, mut r) = (p.clone(), p.clone());
        let f = two[0].1.min(two[1].1);
        if shift(&mut q, &two[0].0, &two[1].0, rng) {
            compare(&st, &q, &ctx, &want, f, &format!("{:?} and {:?} were changed in opposite ways", two[0].0, two[1].0), obs)?;
        }
        if exchange(&mut r, &two[0].0, &two[1].0) {
            compare(&st, &r, &ctx, &want, f, &format!("{:?} and {:?} were exchanged", two[0].0, two[1].0), obs)?;
        }
    }
    // the context
    let (c2, how) = ctx.other(rng);
    let mut tr = c2.tr();
    if verify(&st, &p, &mut tr).is_ok() {
        let got = chal_bytes(&c2, &tr);
        for i in 0..got.len().min(want.len()) {
            ensure!(got[i] != want[i], "{}: challenge {} is the same in another context ({})", st.desc(), i, how);
        }
        obs.seen("contexts compared");
    }
    Ok(())
}
fn c15_statement(rng: &mut Rng, obs: &mut Obs) -> Res {
    match c15_case(rng) {
        Some((st, wit)) => c15_statement_at(st, wit, if obs.thorough { 20 } else { 8 }, pick, rng, obs),
        None => Ok(()),
    }
}
fn c15_statement_at(st: Stmt, wit: Wit, k: usize, pick: fn(&[(SS, usize)], usize, &mut Rng) -> Vec<(SS, usize)>, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{} statement", st.desc()));
    let script = rng.next_u64();
    rand::rngs::vp::install(Vec::new(), Some(script));
    let mut tp = ctx.tr();
    let p = match prove(&st, &wit, &mut tp) {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    let wantp = chal_bytes(&ctx, &tp);
    let mut tr = ctx.tr();
    match verify(&st, &p, &mut tr) {
        Ok(true) => {}
        _ => {
            obs.count("no accepted baseline", 1);
            return Ok(());
        }
    }
    let want = chal_bytes(&ctx, &tr);
    ensure!(want == wantp, "{}: prover and verifier draw different challenges for one accepted proof", st.desc());
    let slots: Vec<(SS, usize)> = stmt_slots(&st).into_iter().filter_map(|s| stmt_first(&st, &s).map(|f| (s, f))).collect();
    let mut changed: Vec<(Stmt, usize, String)> = Vec::new();
    for (s, f) in pick(&slots, k, rng) {
        let (st2, how) = tamper_stmt(&st, &s, rng);
        changed.push((st2, f, format!("{:?} of the statement was changed ({})", s, how)));
    }
    // changes that keep sums and sets
    for _ in 0..k / 2 {
        let mut st2 = st.clone();
        let what: String;
        let mut f = 0;
        match &mut st2 {
            Stmt::Quad { gamma, .. } | Stmt::Copy { gamma, .. } => {
                f = aggregation_challenges(&st);
                let (a, b) = (rng.gen_range(0, gamma.len()), rng.gen_range(0, gamma.len()));
                let n = gamma[0].len();
                match rng.gen_range(0, 5) {
                    0 if a != b => {
                        gamma.swap(a, b);
                        what = format!("equations {} and {} were exchanged", a, b);
                    }
                    1 if n > 1 => {
                        let (i, j) = (rng.gen_range(0, n - 1), n - 1);
                        gamma[a].swap(i, j);
                        what = format!("rows {} and {} of equation {} were exchanged", i, j, a);
                    }
                    2 => {
                        gamma[a] = refimpl::transpose(&gamma[a]);
                        what = format!("equation {} was transposed", a);
                    }
                    3 => {
                        let d = sc_nz(rng);
                        let (i, j) = (rng.gen_range(0, n), rng.gen_range(0, n));
                        gamma[a][i][j] += d;
                        let (i2, j2) = ((i + 1) % n, j);
                        gamma[b][i2][j2] -= d;
                        what = "two coefficients were changed in opposite ways".into();
                    }
                    _ => {
                        for r in gamma[a].iter_mut() {
                            for x in r.iter_mut() {
                                *x = x.double_();
                            }
                        }
                        what = format!("equation {} was doubled", a);
                    }
                }
            }
            Stmt::Lm2 { a, t, .. } | Stmt::LmK { a, t, .. } => {
                let (m, n) = (a.len(), a[0].len());
                let (i, j) = (rng.gen_range(0, m), rng.gen_range(0, m));
                match rng.gen_range(0, 4) {
                    0 if i != j => {
                        a.swap(i, j);
                        what = format!("rows {} and {} of the map were exchanged", i, j);
                    }
                    1 if i != j => {
                        t.swap(i, j);
                        what = format!("targets {} and {} were exchanged", i, j);
                    }
                    2 if i != j => {
                        let d = pt(rng);
                        t[i] += d;
                        t[j] -= d;
                        what = format!("targets {} and {} were changed in opposite ways", i, j);
                    }
                    _ if n > 1 => {
                        let d = pt(rng);
                        let c = rng.gen_range(0, n - 1);
                        a[i][c] += d;
                        a[j][n - 1] -= d;
                        what = "two entries of the map were changed in opposite ways".into();
                    }
                    _ => continue,
                }
            }
            _ => continue,
        }
        // an exchange can leave everything as it was
        let same = match (&st, &st2) {
            (Stmt::Quad { gamma: x, .. }, Stmt::Quad { gamma: y, .. }) | (Stmt::Copy { gamma: x, .. }, Stmt::Copy { gamma: y, .. }) => x == y,
            (Stmt::Lm2 { a, t, .. }, Stmt::Lm2 { a: b, t: u, .. }) | (Stmt::LmK { a, t, .. }, Stmt::LmK { a: b, t: u, .. }) => a == b && t == u,
            _ => true,
        };
        if !same {
            changed.push((st2, f, what));
        }
    }
    if let Stmt::Copy { coms, map, crs, .. } = &st {
        if coms.len() > 1 {
            let mut st2 = st.clone();
            let (i, j) = (rng.gen_range(0, coms.len() - 1), coms.len() - 1);
            let mut st3 = st.clone();
            let d = pt(rng);
            if let Stmt::Copy { coms, .. } = &mut st2 {
                coms.swap(i, j);
            }
            if let Stmt::Copy { coms, .. } = &mut st3 {
                coms[i] += d;
                coms[j] -= d;
            }
            changed.push((st2, 0, format!("commitments {} and {} were exchanged", i, j)));
            changed.push((st3, 0, format!("commitments {} and {} were changed in opposite ways", i, j)));
        }
        // another place for a message: the equations the verifier adds are part of the statement
        let n = crs.g.len();
        let used: BTreeSet<u16> = map.msgs.iter().map(|m| m.3).chain(map.unique.iter().cloned()).collect();
        let free: Vec<u16> = (1..n as u16 - 2).filter(|p| !used.contains(p)).collect();
        if !free.is_empty() {
            let mut st2 = st.clone();
            let i = rng.gen_range(0, map.msgs.len());
            if let Stmt::Copy { map, .. } = &mut st2 {
                map.msgs[i].3 = free[rng.gen_range(0, free.len())];
            }
            changed.push((st2, aggregation_challenges(&st), format!("message {} has another place", i)));
        }
    }
    for (st2, f, what) in changed.iter() {
        compare(st2, &p, &ctx, &want, *f, what, obs)?;
        // the prover with the same randomness and witness
        let prover_too = match st2 {
            Stmt::Copy { map, .. } => match &st {
                // the prover computes the commitments from the openings
                Stmt::Copy { coms, map: m0, .. } => {
                    let same = matches!(st2, Stmt::Copy { coms: c2, .. } if c2 == coms);
                    same && map == m0
                }
                _ => false,
            },
            _ => true,
        };
        if prover_too {
            rand::rngs::vp::install(Vec::new(), Some(script));
            let mut tp = ctx.tr();
            if prove(st2, &wit, &mut tp).is_ok() {
                let got = chal_bytes(&ctx, &tp);
                // the two-way linear map prover computes the target from the map and the witness
                let unused = match (&st, st2) {
                    (Stmt::Lm2 { a, .. }, Stmt::Lm2 { a: b, .. }) => a == b,
                    _ => false,
                };
                if !unused {
                    for i in *f..got.len().min(want.len()) {
                        ensure!(got[i] != want[i], "{}: the prover's challenge {} is the same although {}", st.desc(), i, what);
                    }
                    obs.seen("prover challenges compared");
                }
            }
        }
    }
    // other openings: the prover's challenges depend on the commitments
    if let (Stmt::Copy { .. }, Wit::Copy { w, openings }) = (&st, &wit) {
        let mut o2 = openings.clone();
        let i = rng.gen_range(0, o2.len());
        o2[i].1 += S::one();
        rand::rngs::vp::install(Vec::new(), Some(script));
        let mut tp = ctx.tr();
        if prove(&st, &Wit::Copy { w: w.clone(), openings: o2 }, &mut tp).is_ok() {
            for (i, g) in chal_bytes(&ctx, &tp).iter().enumerate().take(want.len()) {
                ensure!(*g != want[i], "{}: the prover's challenge {} does not depend on the commitments", st.desc(), i);
            }
            obs.seen("prover challenges compared");
        }
    }
    // all challenges of a session differ from each other
    let set: HashSet<&Vec<u8>> = want.iter().collect();
    ensure!(set.len() == want.len(), "{}: a challenge repeats within the session", st.desc());
    Ok(())
}
trait Double {
    fn double_(&self) -> S;
}
impl Double for S {
    fn double_(&self) -> S {
        self + self
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "a case is a set of zero-knowledge proofs of one statement: independent ones whose components are compared (one process, other threads, other processes), or proofs under a scripted generator from which the masks are solved, or whose blinding values are watched while single bytes of the generator change; distinct by proof bytes",
            fams: vec![
                fam("proofs of one statement", 60, c13_fresh), fam("masks of linear maps", 60, c13_lmpa),
                fam("masks of inner products", 12, c13_alm), fam("probes", 6, c13_probe), fam("walks", 6, c13_walk), fam("long masks", 2, c13_large), fam("processes", 2, c13_processes),
            ],
            quick: 1400, thorough: 40_000, threads: 0,
            must_see: vec!["proofs of one statement compared", "processes compared", "processes at one time compared", "walks compared", "long masks compared"],
            assumptions: vec!["a relation between independent values occurs by chance with probability of about 2^-120"],
            finish: Some(c13_finish),
        },
        Prop {
            id: "C15",
            rule: "a case is an accepted session whose challenges are compared with those of sessions in which one prover message, statement component or context event differs; distinct by proof bytes",
            fams: vec![fam("messages", 20, c15_messages), fam("statement", 20, c15_statement), fam("large statements", 1, c15_large)],
            quick: 2000, thorough: 60_000, threads: 0,
            must_see: vec!["changes compared", "contexts compared", "prover challenges compared", "large statements"],
            assumptions: vec![], finish: None,
        },
    ]
}
