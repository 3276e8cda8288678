//! C01-C11: completeness and soundness verdicts of every protocol.
#![allow(non_snake_case)]
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::proto::*;
use crate::refimpl;
use crate::refimpl::{CopyCheat, QuadCheat};
use curve25519_dalek::traits::Identity;
use merlin::VpEvent;
use rand::seq::SliceRandom as _;
use rand::Rng as _;
use std::collections::{BTreeSet, HashMap};

// ------------------------------------------------------------ helpers

pub fn honest(st: &Stmt, wit: &Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = match prove(st, wit, &mut ctx.tr()) {
        Ok(p) => p,
        Err(e) => return violation(format!("{}: the prover failed on an honest witness: {}", st.desc(), e)),
    };
    obs.count("proofs", 1);
    match verify(st, &p, &mut ctx.tr()) {
        Ok(true) => {
            obs.seen("honest accepted");
            Ok(())
        }
        Ok(false) => violation(format!("{} context {:?}: an honest proof was rejected", st.desc(), ctx)),
        Err(e) => violation(format!("{}: the verifier failed on an honest proof: {}", st.desc(), e)),
    }
}

/// A proof the verifier accepts, to be tampered with.
pub fn baseline(st: &Stmt, wit: &Wit, ctx: &Ctx, rng: &mut Rng, obs: &mut Obs) -> Option<Proof> {
    if let Ok(p) = prove(st, wit, &mut ctx.tr()) {
        if let Ok(true) = verify(st, &p, &mut ctx.tr()) {
            obs.seen("baseline accepted");
            return Some(p);
        }
    }
    let p = refimpl::prove(st, wit, &mut ctx.tr(), rng);
    if let Ok(true) = verify(st, &p, &mut ctx.tr()) {
        obs.seen("baseline accepted");
        return Some(p);
    }
    obs.count("no accepted baseline", 1);
    None
}

pub fn must_reject(st: &Stmt, p: &Proof, ctx: &Ctx, what: &str, obs: &mut Obs) -> Res {
    match verify(st, p, &mut ctx.tr()) {
        Ok(false) => {
            obs.seen("rejected");
            Ok(())
        }
        Ok(true) => violation(format!("{}: accepted although {}", st.desc(), what)),
        Err(e) => violation(format!("{}: the verifier failed instead of rejecting ({}): {}", st.desc(), what, e)),
    }
}

/// A cheating prover made of the crate's own one: it proves `st` but says at every place of the transcript
/// that is not a part of the proof what the verifier of `claim` is going to say there, so that both use the
/// same challenges. The messages that differ are found by comparing the two logs, until nothing differs.
pub fn impostor(st: &Stmt, claim: &Stmt, wit: &Wit, ctx: &Ctx, rng: &mut Rng, obs: &mut Obs) -> Option<Proof> {
    impostor_with(st, claim, wit, ctx, &[], &|_| (), rng, obs)
}
/// One that also changes its proof before it sends it, and draws its randomness from `prefix` first.
pub fn impostor_with(st: &Stmt, claim: &Stmt, wit: &Wit, ctx: &Ctx, prefix: &[u8], mangle: &dyn Fn(&mut Proof), rng: &mut Rng, obs: &mut Obs) -> Option<Proof> {
    let (seed, after) = (rng.gen::<u64>(), rng.gen::<u64>());
    let mut with: std::collections::BTreeMap<usize, (&'static [u8], Vec<u8>)> = Default::default();
    let mut out = None;
    for _ in 0..12 {
        merlin::Transcript::vp_replace(with.clone());
        rand::rngs::vp::install(prefix.to_vec(), Some(seed));
        let mut tp = ctx.tr();
        let p = prove(st, wit, &mut tp);
        merlin::Transcript::vp_replace(Default::default());
        let mut p = match p {
            Ok(p) => p,
            Err(_) => break,
        };
        mangle(&mut p);
        let mut tv = ctx.tr();
        let _ = verify(claim, &p, &mut tv);
        out = Some(p);
        let (a, b) = (log(&tp), log(&tv));
        let mut more = false;
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            match (x, y) {
                (merlin::VpEvent::Append(l, _), merlin::VpEvent::Append(k, m)) if l == k => {
                    if x != y {
                        with.insert(i, (*l, m.clone()));
                        more = true;
                    }
                }
                (merlin::VpEvent::Challenge(l, _), merlin::VpEvent::Challenge(k, _)) if l == k => {
                    if x != y {
                        break;
                    }
                }
                // the two do not follow the same schedule
                _ => break,
            }
        }
        if !more {
            break;
        }
    }
    rand::rngs::vp::install(Vec::new(), Some(after));
    if out.is_some() {
        obs.count("proofs by an impostor", 1);
    }
    out
}
pub fn impostor_rejected(st: &Stmt, claim: &Stmt, wit: &Wit, ctx: &Ctx, what: &str, rng: &mut Rng, obs: &mut Obs) -> Res {
    match impostor(st, claim, wit, ctx, rng, obs) {
        Some(p) => must_reject(claim, &p, ctx, &format!("{} (proof by an impostor)", what), obs),
        None => Ok(()),
    }
}

/// Up to `k` different elements; all of them if there are few.
pub fn pick<T: Clone>(v: &[T], k: usize, rng: &mut Rng) -> Vec<T> {
    if v.len() <= k {
        return v.to_vec();
    }
    let mut idx: Vec<usize> = (0..v.len()).collect();
    (0..k)
        .map(|_| {
            let i = rng.gen_range(0, idx.len());
            v[idx.swap_remove(i)].clone()
        })
        .collect()
}

/// Up to `k` slots: one of every kind first, then any.
pub fn pick_kinds<T: Clone + PartialEq + std::fmt::Debug>(v: &[T], k: usize, rng: &mut Rng) -> Vec<T> {
    let kind = |x: &T| format!("{:?}", x).split('(').next().unwrap().to_string();
    let mut by: std::collections::BTreeMap<String, Vec<T>> = Default::default();
    for x in v {
        by.entry(kind(x)).or_default().push(x.clone());
    }
    let mut out: Vec<T> = by.values().map(|l| l[rng.gen_range(0, l.len())].clone()).collect();
    for x in pick(v, k, rng) {
        if out.len() < k && !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// Like `pick_kinds`, but rather from the ends of each kind's list and around the powers of two.
pub fn pick_edges<T: Clone + PartialEq + std::fmt::Debug>(v: &[T], k: usize, rng: &mut Rng) -> Vec<T> {
    let kind = |x: &T| format!("{:?}", x).trim_start_matches('(').split('(').next().unwrap().to_string();
    let mut by: std::collections::BTreeMap<String, Vec<T>> = Default::default();
    for x in v {
        by.entry(kind(x)).or_default().push(x.clone());
    }
    let mut out: Vec<T> = Vec::new();
    let mut lap = 0;
    while out.len() < k.min(v.len()) && lap < k {
        for l in by.values() {
            let i = match (lap, rng.gen_range(0, 4)) {
                (0, _) => l.len() - 1,
                (_, 0) => rng.gen_range(0, l.len()),
                _ => {
                    let e = rng.gen_range(0, 64 - (l.len() as u64).leading_zeros());
                    ((1usize << e) + rng.gen_range(0, 3) - 1).min(l.len() - 1)
                }
            };
            if !out.contains(&l[i]) {
                out.push(l[i].clone());
            }
        }
        lap += 1;
    }
    out
}
/// Single components of large and of every other size.
fn tamper_sizes(kinds: &[Kind], rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v = size_list(obs.thorough);
    let cap = if obs.thorough { 1 << 24 } else { 1 << 17 };
    v.retain(|z| kinds.contains(&z.kind) && cost(z) <= cap && z.n >= if matches!(z.kind, Kind::LmK | Kind::LmKZk) { z.k } else { 2 });
    let (st, wit) = match gen_sized(walk(&v), Style::Dense, rng) {
        Ok(x) => x,
        Err(_) => {
            obs.count("no case", 1);
            return Ok(());
        }
    };
    tamper_picked(&st, &wit, 5, pick_edges, pick_edges, rng, obs)
}
/// Sizes beyond those that the walks of `size_list` reach.
fn huge_list(thorough: bool) -> Vec<Size> {
    let mut v = Vec::new();
    let mut add = |kind: Kind, n: usize, m: usize, k: usize| v.push(Size { kind, n, m, k });
    // the quick tier tries the first three of every kind of statement
    add(Kind::Quad, 4, 66_000, 1);
    add(Kind::Quad, 512, 2, 1);
    add(Kind::Quad, 8, 5_000, 1);
    add(Kind::Copy, 512, 1, 300);
    add(Kind::Copy, 8, 66_000, 1);
    add(Kind::Copy, 64, 200, 40);
    add(Kind::Ipa, 1 << 13, 1, 1);
    add(Kind::Alm, 1 << 13, 1, 1);
    add(Kind::Ipa, 1 << 14, 1, 1);
    add(Kind::Lm2Zk, 1 << 13, 1, 1);
    add(Kind::Lm2Zk, 2, 2_000, 1);
    add(Kind::Lm2, 1 << 13, 1, 1);
    add(Kind::LmK, 300, 1, 300);
    add(Kind::LmKZk, 6_561, 1, 3);
    add(Kind::LmK, 4, 2_000, 4);
    if thorough {
        add(Kind::Quad, 1024, 1, 1);
        add(Kind::Quad, 8, 70_000, 1);
        add(Kind::Copy, 1024, 1, 900);
        add(Kind::Alm, 1 << 14, 1, 1);
        add(Kind::Ipa, 1 << 15, 1, 1);
        add(Kind::Alm, 1 << 15, 1, 1);
        add(Kind::Lm2, 1 << 14, 1, 1);
        add(Kind::Lm2Zk, 1 << 14, 1, 1);
        add(Kind::Lm2, 1 << 15, 1, 1);
        add(Kind::Lm2Zk, 2, 66_000, 1);
        add(Kind::LmK, 500, 1, 500);
        add(Kind::Lm2, 2, 66_000, 1);
        add(Kind::Lm2Zk, 2, 5_000, 1);
        add(Kind::LmK, 1 << 13, 1, 2);
        add(Kind::LmKZk, 19_683, 1, 3);
        add(Kind::LmKZk, 2, 66_000, 2);
        add(Kind::LmK, 1 << 14, 1, 128);
    }
    v
}
/// Honest proofs of very large statements are accepted, changed ones are not.
fn huge(kinds: &[Kind], tampered: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v = huge_list(obs.thorough);
    // one change at a time, each of them verified: not for the maps with most rows
    v.retain(|z| kinds.contains(&z.kind) && !(tampered && z.m > 5_000 && !matches!(z.kind, Kind::Quad | Kind::Copy)));
    let z = walk(&v);
    let t = std::time::Instant::now();
    let (st, wit) = match gen_sized(z, Style::Dense, rng) {
        Ok(x) => x,
        Err(e) => return Err(Fail::Inconclusive(format!("no case of size {:?}: {}", z, e))),
    };
    obs.count("very large statements", 1);
    let t2 = t.elapsed();
    let r = if tampered { tamper_picked(&st, &wit, 1, pick_edges, pick_edges, rng, obs) } else { honest(&st, &wit, rng, obs) };
    if std::env::var("VP_TIMES").is_ok() {
        println!("{:?} generated in {:?}, {} after {:?}", z, t2, if tampered { "changed" } else { "honest" }, t.elapsed());
    }
    r
}
fn c01_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Quad], false, rng, obs)
}
fn c03_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Quad], true, rng, obs)
}
fn c04_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Ipa, Kind::Alm], false, rng, obs)
}
fn c05_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Ipa, Kind::Alm], true, rng, obs)
}
fn c06_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Lm2, Kind::Lm2Zk], false, rng, obs)
}
fn c07_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Lm2, Kind::Lm2Zk], true, rng, obs)
}
fn c08_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::LmK, Kind::LmKZk], false, rng, obs)
}
fn c09_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::LmK, Kind::LmKZk], true, rng, obs)
}
fn c10_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Copy], false, rng, obs)
}
fn c11_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    huge(&[Kind::Copy], true, rng, obs)
}
/// How many entries the statement of this size has, roughly.
pub fn cost(z: &Size) -> usize {
    match z.kind {
        Kind::Quad | Kind::Copy => z.n * z.n * z.m,
        Kind::LmK | Kind::LmKZk => z.n * z.m * z.k,
        _ => z.n * z.m * 2,
    }
}

/// Changes of single proof components, statement components and the context are rejected.
fn tamper_single(kind: Kind, max: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let (st, wit) = match gen_any(kind, max, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => {
            obs.count("no case", 1);
            return Ok(());
        }
    };
    tamper_case(&st, &wit, rng, obs)
}
fn tamper_case(st: &Stmt, wit: &Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_picked(st, wit, 14, pick_kinds, pick_kinds, rng, obs)
}
fn tamper_picked(
    st: &Stmt, wit: &Wit, k: usize, pick_ps: fn(&[PS], usize, &mut Rng) -> Vec<PS>, pick_ss: fn(&[SS], usize, &mut Rng) -> Vec<SS>, rng: &mut Rng, obs: &mut Obs,
) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = match baseline(st, wit, &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    for s in pick_ps(&proof_slots(&p), k, rng) {
        let (q, how) = tamper_proof(&p, &s, rng);
        obs.count("proof component changed", 1);
        must_reject(st, &q, &ctx, &format!("proof component {:?} was changed ({})", s, how), obs)?;
    }
    for s in pick_ss(&stmt_slots(st), k, rng) {
        let (st2, how) = tamper_stmt(st, &s, rng);
        obs.count("statement component changed", 1);
        must_reject(&st2, &p, &ctx, &format!("statement component {:?} was changed ({})", s, how), obs)?;
    }
    for _ in 0..2 {
        let (c2, how) = ctx.other(rng);
        obs.count("context changed", 1);
        must_reject(st, &p, &c2, &format!("the transcript context differs ({})", how), obs)?;
    }
    // the untouched proof is still accepted afterwards
    if let Ok(false) = verify(st, &p, &mut ctx.tr()) {
        return violation(format!("{}: the same proof was first accepted and later rejected", st.desc()));
    }
    Ok(())
}
/// Components exchanged or changed together.
fn tamper_pairs(kind: Kind, max: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let (st, wit) = match gen_any(kind, max, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = match baseline(&st, &wit, &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    let slots = proof_slots(&p);
    for _ in 0..6 {
        let (s1, s2) = (slots[rng.gen_range(0, slots.len())], slots[rng.gen_range(0, slots.len())]);
        if s1 == s2 {
            continue;
        }
        let mut q = p.clone();
        let swap = rng.gen_range(0, 2) == 0;
        enum V {
            P(P),
            S(S),
        }
        fn get(p: &mut Proof, s: &PS) -> V {
            match slot(p, s) {
                Slot::C(c) => V::P(c.decompress().unwrap()),
                Slot::P(x) => V::P(*x),
                Slot::S(x) => V::S(*x),
            }
        }
        fn set(p: &mut Proof, s: &PS, v: V) {
            match (slot(p, s), v) {
                (Slot::C(c), V::P(x)) => *c = x.compress(),
                (Slot::P(c), V::P(x)) => *c = x,
                (Slot::S(c), V::S(x)) => *c = x,
                _ => {}
            }
        }
        let how = match (get(&mut q, &s1), get(&mut q, &s2)) {
            (V::P(x), V::P(y)) => {
                if swap {
                    set(&mut q, &s1, V::P(y));
                    set(&mut q, &s2, V::P(x));
                    "exchanged"
                } else {
                    let d = pt(rng);
                    set(&mut q, &s1, V::P(x + d));
                    set(&mut q, &s2, V::P(y - d));
                    "changed by opposite amounts"
                }
            }
            (V::S(x), V::S(y)) => {
                if swap {
                    set(&mut q, &s1, V::S(y));
                    set(&mut q, &s2, V::S(x));
                    "exchanged"
                } else {
                    let d = sc_nz(rng);
                    set(&mut q, &s1, V::S(x * d));
                    set(&mut q, &s2, V::S(y * d.invert()));
                    "scaled inversely"
                }
            }
            _ => continue,
        };
        if q == p {
            continue;
        }
        obs.count("two components changed", 1);
        must_reject(&st, &q, &ctx, &format!("proof components {:?} and {:?} were {}", s1, s2, how), obs)?;
    }
    // a proof of another statement of the same shape
    let mut st2 = st.clone();
    let slots = stmt_slots(&st);
    let (s1, s2) = (slots[rng.gen_range(0, slots.len())], slots[rng.gen_range(0, slots.len())]);
    if s1 != s2 {
        st2 = tamper_stmt(&st2, &s1, rng).0;
        st2 = tamper_stmt(&st2, &s2, rng).0;
        obs.count("two statement components changed", 1);
        must_reject(&st2, &p, &ctx, &format!("statement components {:?} and {:?} were changed", s1, s2), obs)?;
    }
    Ok(())
}

fn big(obs: &Obs, q: usize, t: usize) -> usize {
    if obs.thorough {
        t
    } else {
        q
    }
}
fn pow2_in(lo: usize, hi: usize, rng: &mut Rng) -> usize {
    let mut v = Vec::new();
    let mut n = lo;
    while n <= hi {
        v.push(n);
        n *= 2;
    }
    v[rng.gen_range(0, v.len())]
}

// ------------------------------------------------------------ C01

fn c01_odd(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(1, 6);
    let (st, w) = gen_quad(n, k, Style::Odd, rng);
    honest(&st, &w, rng, obs)
}
fn c01_dense(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 32, rng);
    let k = rng.gen_range(1, 5);
    let (st, w) = gen_quad(n, k, Style::Dense, rng);
    honest(&st, &w, rng, obs)
}
fn c01_many(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(n - 3, 2 * n + 6);
    let (st, w) = gen_quad(n, k, Style::Odd, rng);
    honest(&st, &w, rng, obs)
}
fn c01_big(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(64, big(obs, 64, 256), rng);
    let k = rng.gen_range(1, 3);
    let st = if rng.gen_range(0, 2) == 0 { Style::Odd } else { Style::Dense };
    let (st, w) = gen_quad(n, k, st, rng);
    honest(&st, &w, rng, obs)
}
fn c03_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_sizes(&[Kind::Quad], rng, obs)
}
fn c05_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_sizes(&[Kind::Ipa, Kind::Alm], rng, obs)
}
fn c07_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_sizes(&[Kind::Lm2, Kind::Lm2Zk], rng, obs)
}
fn c09_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_sizes(&[Kind::LmK, Kind::LmKZk], rng, obs)
}
fn c11_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_sizes(&[Kind::Copy], rng, obs)
}
fn pick_style(rng: &mut Rng) -> Style {
    if rng.gen_range(0, 2) == 0 {
        Style::Odd
    } else {
        Style::Dense
    }
}
/// Sizes and numbers of equations, one after the other.
fn quad_sizes(thorough: bool) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = (1..=140).map(|k| (4, k)).collect();
    v.extend([255, 256, 257, 300].iter().map(|k| (4, *k)));
    v.extend((1..=70).map(|k| (8, k)));
    v.extend((1..=34).map(|k| (16, k)));
    v.extend([1, 2, 31, 33].iter().map(|k| (32, *k)));
    v.extend([1, 3, 17].iter().map(|k| (64, *k)));
    v.extend([(128, 1), (128, 2), (256, 1), (512, 1)].iter());
    if thorough {
        v.extend((141..=600).map(|k| (4, k)));
        v.extend((71..=270).map(|k| (8, k)));
        v.extend((35..=130).map(|k| (16, k)));
        v.extend((1..=66).map(|k| (32, k)));
        v.extend([(64, 65), (128, 9), (256, 3), (512, 2), (1024, 1)].iter());
    }
    v
}
fn c01_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (n, k) = walk(&quad_sizes(obs.thorough));
    let (st, w) = gen_quad(n, k, pick_style(rng), rng);
    honest(&st, &w, rng, obs)
}
/// Extreme witnesses: unit-like, all equal, only the last entry.
fn c01_extreme(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let mut w = vec![S::zero(); n - 2];
    w[0] = S::one();
    match rng.gen_range(0, 4) {
        0 => {}
        1 => w[n - 3] = sc_mix(rng),
        2 => w = vec![S::one(); n - 2],
        _ => {
            for x in w.iter_mut().skip(1) {
                *x = -S::one()
            }
        }
    }
    let k = rng.gen_range(1, 4);
    let gamma: Vec<Mat> = (0..k)
        .map(|_| {
            if rng.gen_range(0, 2) == 0 {
                vec![vec![S::zero(); n - 2]; n - 2]
            } else {
                gen_eq(&w, &BTreeSet::new(), Style::Odd, rng)
            }
        })
        .collect();
    let st = Stmt::Quad { crs: gen_crs(n, Style::Odd, rng), gamma };
    honest(&st, &Wit::Quad(w), rng, obs)
}

// ------------------------------------------------------------ C02

fn try_false_quad(st: &Stmt, w: &[S], what: &str, cheat_first: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    try_false_quad_of(st, None, w, what, cheat_first, rng, obs)
}
/// `true_gamma`: equations that hold, which a cheating prover proves in the place of the violated ones.
fn try_false_quad_of(st: &Stmt, true_gamma: Option<&Vec<Mat>>, w: &[S], what: &str, cheat_first: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    let wit = Wit::Quad(w.to_vec());
    impostor_rejected(st, st, &wit, &ctx, what, rng, obs)?;
    if let (Stmt::Quad { crs, .. }, Some(g)) = (st, true_gamma) {
        let good = Stmt::Quad { crs: crs.clone(), gamma: g.clone() };
        impostor_rejected(&good, st, &wit, &ctx, what, rng, obs)?;
    }
    obs.shape(format!("{}: {}", st.desc(), what));
    match prove(st, &Wit::Quad(w.to_vec()), &mut ctx.tr()) {
        Ok(p) => {
            obs.count("proofs of false statements", 1);
            match verify(st, &p, &mut ctx.tr()) {
                Ok(true) => return violation(format!("{}: a proof was accepted although {}", st.desc(), what)),
                Ok(false) => obs.seen("rejected"),
                Err(_) => obs.seen("verifier refused"),
            }
        }
        Err(_) => obs.seen("prover refused"),
    }
    // provers that deviate: they claim the value the verifier will use
    if let Stmt::Quad { crs, gamma } = st {
        let r = [sc(rng), sc(rng)];
        let mut cheats = vec![QuadCheat::claim(true)];
        if cheat_first {
            cheats.push(QuadCheat { effective_first: true, ..QuadCheat::claim(true) });
            cheats.push(QuadCheat { effective_first: true, ..QuadCheat::claim(false) });
        }
        for ch in cheats {
            let q = refimpl::quad_prove(&mut ctx.tr(), crs, gamma, w, &r, rng, &ch);
            obs.count("proofs of false statements by a cheating prover", 1);
            if let Ok(true) = verify(st, &Proof::Quad(q), &mut ctx.tr()) {
                return violation(format!("{}: a cheating prover's proof was accepted although {}", st.desc(), what));
            }
            obs.seen("cheating prover rejected");
        }
    }
    Ok(())
}
fn violate_entry(gamma: &mut Vec<Mat>, w: &[S], k: usize, v: S, rng: &mut Rng) -> (usize, usize) {
    let nz: Vec<usize> = (0..w.len()).filter(|i| w[*i] != S::zero()).collect();
    let (i, j) = (nz[rng.gen_range(0, nz.len())], nz[rng.gen_range(0, nz.len())]);
    gamma[k][i][j] += v * (w[i] * w[j]).invert();
    (i, j)
}
fn c02_single(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(1, 5);
    c02_single_at(n, k, rng, obs)
}
fn c02_many(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 8, rng);
    let k = rng.gen_range(n - 2, 2 * n + 6);
    c02_single_at(n, k, rng, obs)
}
fn c02_single_at(n: usize, k: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let style = if rng.gen_range(0, 3) == 0 { Style::Dense } else { Style::Odd };
    let w = gen_w(n, style, rng);
    let mut gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), style, rng)).collect();
    let j = if rng.gen_range(0, 3) == 0 { k - 1 } else { rng.gen_range(0, k) };
    let v = if rng.gen_range(0, 2) == 0 { S::one() } else { sc_nz(rng) };
    let good = gamma.clone();
    let at = violate_entry(&mut gamma, &w, j, v, rng);
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    try_false_quad_of(&st, Some(&good), &w, &format!("equation {} of {} is violated (entry {:?})", j, k, at), false, rng, obs)
}
/// Errors of two or three equations that cancel under a weakened batching.
fn c02_offset(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 8, rng);
    let k = rng.gen_range(2, 2 * n + 3);
    let w = gen_w(n, Style::Dense, rng);
    let mut gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Odd, rng)).collect();
    let i = rng.gen_range(0, k);
    let mut j = rng.gen_range(0, k - 1);
    if j >= i {
        j += 1;
    }
    let kinds = 8;
    let kind = rng.gen_range(0, kinds);
    let f = |i: usize| -> S {
        match kind {
            0 | 6 | 7 => S::one(),
            1 => S::from(i as u64 + 1),
            2 => (0..i).fold(S::one(), |a, _| a + a),
            3 => {
                if i % 2 == 0 {
                    S::one()
                } else {
                    -S::one()
                }
            }
            4 => S::from((i as u64 + 1) * (i as u64 + 1)),
            _ => S::from(i as u64 + 1).invert(),
        }
    };
    let d = sc_nz(rng);
    let same = rng.gen_range(0, 2) == 0;
    let good = gamma.clone();
    if same {
        gamma[i][0][0] += d * f(j);
        gamma[j][0][0] -= d * f(i);
    } else {
        violate_entry(&mut gamma, &w, i, d * f(j), rng);
        violate_entry(&mut gamma, &w, j, -d * f(i), rng);
    }
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    obs.count("offsetting errors", 1);
    try_false_quad_of(&st, Some(&good), &w, &format!("equations {} and {} of {} are violated by offsetting errors (kind {})", i, j, k, kind), false, rng, obs)
}
/// Opposite errors in two equations that are a given distance apart.
fn c02_distance(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut ds: Vec<usize> = (1..=if obs.thorough { 300 } else { 134 }).collect();
    ds.extend_from_slice(&[255, 256, 257, 512]);
    let d = walk(&ds);
    let k = d + 1 + rng.gen_range(0, 4);
    let i = rng.gen_range(0, k - d);
    let w = gen_w(4, Style::Dense, rng);
    let mut gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Odd, rng)).collect();
    let e = sc_nz(rng);
    let f = if rng.gen_range(0, 5) == 0 { e } else { -e };
    let good = gamma.clone();
    gamma[i][0][0] += e;
    gamma[i + d][0][0] += f;
    let st = Stmt::Quad { crs: gen_crs(4, Style::Dense, rng), gamma };
    obs.count("offsetting errors", 1);
    try_false_quad_of(&st, Some(&good), &w, &format!("equations {} and {} of {} are violated by offsetting errors", i, i + d, k), false, rng, obs)
}
/// Tens of thousands of equations, two of them far apart violated by offsetting amounts.
fn c02_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    let w = gen_w(4, Style::Dense, rng);
    let few: Vec<Mat> = (0..100).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Dense, rng)).collect();
    let k = 66_000 + rng.gen_range(0, 100);
    let good: Vec<Mat> = (0..k).map(|_| few[rng.gen_range(0, few.len())].clone()).collect();
    let crs = gen_crs(4, Style::Dense, rng);
    let ds = [65_536usize, 32_768, 16_384, 65_535, 8_192, 32_767, 65_537, 4_096, 2_048, 16_383, 1_024, 20_000, 10_000, 50_000, 32_769, 1_000];
    for j in 0..4 {
        let d = ds[(nth() as usize * 4 + j) % ds.len()];
        let i = rng.gen_range(0, k - d);
        let mut gamma = good.clone();
        let e = sc_nz(rng);
        gamma[i][0][0] += e;
        gamma[i + d][0][0] -= e;
        let st = Stmt::Quad { crs: crs.clone(), gamma };
        let ctx = Ctx::gen(rng);
        obs.shape(format!("{}: equations {} and {} are violated by offsetting errors", st.desc(), i, i + d));
        obs.count("offsetting errors", 1);
        if let Ok(p) = prove(&st, &Wit::Quad(w.clone()), &mut ctx.tr()) {
            obs.count("proofs of false statements", 1);
            must_reject(&st, &p, &ctx, &format!("equations {} and {} of {} are violated by offsetting errors", i, i + d, k), obs)?;
        }
    }
    obs.count("very large statements", 1);
    Ok(())
}
/// A violated entry at a given place of a matrix, also of a large one.
fn c02_places(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    for n in [4usize, 8, 16].iter() {
        for i in 0..n - 2 {
            for j in 0..n - 2 {
                v.push((*n, i, j));
            }
        }
    }
    for n in [32usize, 64, 128, 256].iter() {
        for (i, j) in [(0, 0), (0, n - 3), (n - 3, 0), (n - 3, n - 3), (n / 2, n / 2 - 1), (n / 2 - 2, n / 2 - 1)].iter() {
            if *n <= 64 || obs.thorough || (i + j) % 5 == 0 {
                v.push((*n, *i, *j));
            }
        }
    }
    let (n, i, j) = walk(&v);
    let k = rng.gen_range(1, 3);
    let w = gen_w(n, Style::Dense, rng);
    let mut gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Odd, rng)).collect();
    let e = rng.gen_range(0, k);
    let good = gamma.clone();
    gamma[e][i][j] += if rng.gen_range(0, 2) == 0 { S::one() } else { sc_nz(rng) };
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    try_false_quad_of(&st, Some(&good), &w, &format!("entry ({}, {}) of equation {} violates it", i, j, e), false, rng, obs)
}
/// First witness entry not one; the equations themselves hold.
fn c02_first(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(1, 4);
    let w = gen_w(n, Style::Dense, rng);
    let gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Dense, rng)).collect();
    let c = match rng.gen_range(0, 5) {
        0 => S::zero(),
        1 => -S::one(),
        2 => S::from(2u64),
        3 => S::from(2u64).invert(),
        _ => sc_nz(rng),
    };
    // scaling keeps every equation satisfied
    let w2: Vec<S> = w.iter().map(|x| x * c).collect();
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    obs.count("first entry not one", 1);
    try_false_quad(&st, &w2, "the first witness entry is not one", true, rng, obs)
}
/// First entry wrong and no equation mentions it: only the honest prover's algorithm is claimed.
fn c02_first_unused(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 16, rng);
    let mut w = gen_w(n, Style::Dense, rng);
    w[0] = S::from(rng.gen_range(2, 9) as u64);
    let mut m = gen_eq(&w, &BTreeSet::new(), Style::Dense, rng);
    let z = n - 2;
    for i in 0..z {
        m[0][i] = S::zero();
        m[i][0] = S::zero();
    }
    let e = quad_form(&m, &w);
    m[1][1] -= e * (w[1] * w[1]).invert();
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma: vec![m] };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    if let Ok(p) = prove(&st, &Wit::Quad(w), &mut ctx.tr()) {
        if let Ok(true) = verify(&st, &p, &mut ctx.tr()) {
            return violation(format!("{}: a proof was accepted although the first witness entry is not one", st.desc()));
        }
    }
    obs.seen("rejected");
    Ok(())
}
/// One witness entry wrong.
fn c02_witness(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 32, rng);
    let k = rng.gen_range(1, 4);
    let mut w = gen_w(n, Style::Dense, rng);
    let gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), Style::Dense, rng)).collect();
    let i = rng.gen_range(1, w.len());
    w[i] = other_scalar(&w[i], rng).0;
    if gamma.iter().all(|g| quad_form(g, &w) == S::zero()) {
        return Ok(());
    }
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    try_false_quad(&st, &w, &format!("witness entry {} is wrong", i), false, rng, obs)
}
/// The second commitment is about another witness.
fn c02_second(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(1, 4);
    let good = gen_w(n, Style::Dense, rng);
    let gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&good, &BTreeSet::new(), Style::Dense, rng)).collect();
    let mut bad = good.clone();
    let i = rng.gen_range(1, bad.len());
    bad[i] += sc_nz(rng);
    let crs = gen_crs(n, Style::Dense, rng);
    let st = Stmt::Quad { crs: crs.clone(), gamma: gamma.clone() };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    for claim in [false, true].iter() {
        let ch = QuadCheat { second: Some(good.clone()), ..QuadCheat::claim(*claim) };
        let r = [sc(rng), sc(rng)];
        let q = refimpl::quad_prove(&mut ctx.tr(), &crs, &gamma, &bad, &r, rng, &ch);
        if let Ok(true) = verify(&st, &Proof::Quad(q), &mut ctx.tr()) {
            return violation(format!("{}: accepted although the two commitments are to different witnesses", st.desc()));
        }
        obs.seen("cheating prover rejected");
    }
    Ok(())
}

/// The last aggregate commitment ("c_w") which the verifier put on its transcript.
fn verifier_cw(st: &Stmt, p: &Proof, ctx: &Ctx) -> Option<P> {
    let mut tr = ctx.tr();
    let before = log(&tr).len();
    if verify(st, p, &mut tr).is_err() {
        return None;
    }
    let ev = log(&tr);
    ev[before..]
        .iter()
        .rev()
        .find_map(|e| match e {
            VpEvent::Append(l, b) if *l == b"c_w" && b.len() == 32 => Some(C::from_slice(b)),
            _ => None,
        })
        .and_then(|c| c.decompress())
}
/// What the verifier multiplies generators with, in the exponent of a point: the change of its
/// aggregate commitment when the point is added to one generator. No challenge depends on generators.
fn weights(st: &Stmt, p: &Proof, ctx: &Ctx, of: &[(bool, usize)], unit: &P) -> Option<Vec<P>> {
    let base = verifier_cw(st, p, ctx)?;
    let mut v = Vec::new();
    for (h, i) in of {
        let mut st = st.clone();
        if let Stmt::Quad { crs, .. } | Stmt::Copy { crs, .. } = &mut st {
            let x = if *h { &mut crs.h[*i] } else { &mut crs.g[*i] };
            *x += unit;
        }
        v.push(verifier_cw(&st, p, ctx)? - base);
    }
    Some(v)
}
/// Weights that hold apart what they weigh: none is zero or a small multiple of the unit (known
/// before the challenge), and no two are small multiples of each other.
fn distinct_weights(w: &[P], name: &dyn Fn(usize) -> String, unit: &P, what: &str, obs: &mut Obs) -> Res {
    const C: usize = 4;
    let mut seen: HashMap<[u8; 32], (usize, i64)> = HashMap::new();
    let mut known: HashMap<[u8; 32], i64> = HashMap::new();
    let mut acc = P::identity();
    for c in 0..40 {
        known.insert(*acc.compress().as_bytes(), c);
        known.insert(*(-acc).compress().as_bytes(), -c);
        acc += unit;
    }
    for (i, x) in w.iter().enumerate() {
        if let Some(c) = known.get(x.compress().as_bytes()) {
            return violation(format!("{}: {} has the weight {}", what, name(i), c));
        }
        let mut acc = *x;
        for c in 1..=C as i64 {
            for (v, c) in [(acc, c), (-acc, -c)].iter() {
                if let Some((j, d)) = seen.get(v.compress().as_bytes()) {
                    return violation(format!("{}: {} times the weight of {} is {} times that of {}: errors in the two can offset each other", what, c, name(i), d, name(*j)));
                }
            }
            acc += x;
        }
        let mut acc = *x;
        for c in 1..=C as i64 {
            seen.insert(*acc.compress().as_bytes(), (i, c));
            acc += x;
        }
        obs.count("weights of the verifier compared", 1);
    }
    obs.seen("weights observed");
    Ok(())
}
/// Equations, their rows and the parts of the witness enter the verifier's aggregate with weights of their own.
fn c02_weights(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = [4usize, 8, 16, 32, 32, 64][rng.gen_range(0, if obs.thorough { 6 } else { 5 })];
    let m = n - 2;
    // one entry of one equation for every column
    let mode = rng.gen_range(0, 4);
    let k = match mode {
        0 => m,
        1 => rng.gen_range(1, 4),
        _ => rng.gen_range(1, 2 * m + 40),
    };
    let mut at: Vec<(usize, usize)> = Vec::new();
    let row = rng.gen_range(0, m);
    let eq = rng.gen_range(0, k);
    for j in 0..m {
        let c = match mode {
            0 => (j, row),
            1 => (eq, j),
            _ => {
                let mut c = (rng.gen_range(0, k), rng.gen_range(0, m));
                while at.contains(&c) {
                    c = (rng.gen_range(0, k), rng.gen_range(0, m));
                }
                c
            }
        };
        at.push(c);
    }
    at.shuffle(rng);
    let mut gamma: Vec<Mat> = vec![vec![vec![S::zero(); m]; m]; k];
    for (j, (e, i)) in at.iter().enumerate() {
        gamma[*e][*i][j] = S::one();
    }
    let crs = gen_crs(n, Style::Dense, rng);
    let w = gen_w(n, Style::Dense, rng);
    let st = Stmt::Quad { crs: crs.clone(), gamma: gamma.clone() };
    let ctx = Ctx::gen(rng);
    let r = [sc(rng), sc(rng)];
    let q = Proof::Quad(refimpl::quad_prove(&mut ctx.tr(), &crs, &gamma, &w, &r, rng, &QuadCheat::claim(true)));
    let unit = pt(rng);
    let what = format!("{}: one entry of an equation per column", st.desc());
    obs.shape(what.clone());
    let hs: Vec<(bool, usize)> = (0..m).map(|j| (true, j)).collect();
    match weights(&st, &q, &ctx, &hs, &unit) {
        Some(v) => distinct_weights(&v, &|j| format!("row {} of equation {}", at[j].1, at[j].0), &unit, &what, obs)?,
        None => {
            obs.count("no aggregate commitment seen", 1);
            return Ok(());
        }
    }
    // entry 0 has a weight of its own
    let gs: Vec<(bool, usize)> = (1..n).map(|j| (false, j)).collect();
    match weights(&st, &q, &ctx, &gs, &unit) {
        Some(v) => distinct_weights(&v, &|j| format!("entry {} of the extended witness", j + 1), &unit, &what, obs),
        None => Ok(()),
    }
}
/// Every message of every commitment enters with a weight of its own.
fn c11_weights(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 32, rng);
    let m = n - 2;
    let (sets, ws) = match rng.gen_range(0, 3) {
        0 => gen_sets(n, rng),
        _ => {
            let i = rng.gen_range(1, m) as u16;
            let s: BTreeSet<u16> = vec![i].into_iter().collect();
            (vec![s; rng.gen_range(2, m - 1)], 1)
        }
    };
    if model_map(n, ws, &sets).is_none() {
        return Ok(());
    }
    let c = match gen_copy_with(n, 1, sets, ws, Style::Dense, rng) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let (mut st, mut c) = (c.stmt.clone(), c);
    // some of the commitments to the same set are the same point
    let same = rng.gen_range(0, 2) == 0;
    if same {
        if let (Stmt::Copy { map, coms, .. }, Wit::Copy { openings, .. }) = (&mut st, &mut c.wit) {
            let of = |i: usize| map.msgs.iter().filter(|m| m.2 as usize == i).map(|m| m.1).collect::<Vec<_>>();
            let mut twins = 0;
            for i in 1..coms.len() {
                let j = rng.gen_range(0, i);
                if of(i) == of(j) && rng.gen_range(0, 3) > 0 {
                    openings[i] = openings[j].clone();
                    coms[i] = coms[j];
                    twins += 1;
                }
            }
            if twins > 0 {
                obs.seen("equal commitments");
            }
        }
    }
    // no other equation: the columns of the messages are those of the aggregation alone
    if let Stmt::Copy { gamma, .. } = &mut st {
        *gamma = vec![vec![vec![S::zero(); m]; m]];
    }
    let ctx = Ctx::gen(rng);
    let p = match prove(&st, &c.wit, &mut ctx.tr()) {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    let map = match &st {
        Stmt::Copy { map, .. } => map.clone(),
        _ => return Ok(()),
    };
    let at: Vec<(bool, usize)> = map.msgs.iter().map(|(_, _, _, pos)| (true, *pos as usize)).collect();
    let unit = pt(rng);
    let what = format!("{}: weights of the messages", st.desc());
    obs.shape(what.clone());
    match weights(&st, &p, &ctx, &at, &unit) {
        Some(v) => distinct_weights(&v, &|j| format!("message {} (commitment {}, generator {})", j, map.msgs[j].2, map.msgs[j].1), &unit, &what, obs),
        None => {
            obs.count("no aggregate commitment seen", 1);
            Ok(())
        }
    }
}

/// A prover that picks its witness after the batching challenge and lets the second commitment
/// carry the difference to the committed one.
fn c02_late(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(2, 6);
    let w = gen_w(n, Style::Dense, rng);
    // every equation is linear in entry j, which takes another value in each
    let j = rng.gen_range(1, n - 2);
    let mut gamma = Vec::new();
    for _ in 0..k {
        let mut v = w.clone();
        v[j] = sc(rng);
        let mut m = vec![vec![S::zero(); n - 2]; n - 2];
        for i in 0..n - 2 {
            m[0][i] = sc_nz(rng);
        }
        let e = quad_form(&m, &v);
        m[0][0] -= e;
        gamma.push(m);
    }
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma: gamma.clone() };
    let late = |x: S| -> Vec<S> {
        let g = refimpl::batch(&gamma, x);
        let mut v = w.clone();
        v[j] = S::zero();
        let c = quad_form(&g, &v);
        v[j] = -c * g[0][j].invert();
        v
    };
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{}: contradicting equations, witness chosen late", st.desc()));
    let crs = st.crs().unwrap().clone();
    for claim in [false, true].iter() {
        let ch = QuadCheat { late: Some(&late), ..QuadCheat::claim(*claim) };
        let r = [sc(rng), sc(rng)];
        let q = refimpl::quad_prove(&mut ctx.tr(), &crs, &gamma, &w, &r, rng, &ch);
        obs.count("proofs of false statements by a cheating prover", 1);
        if let Ok(true) = verify(&st, &Proof::Quad(q), &mut ctx.tr()) {
            return violation(format!("{}: contradicting equations were accepted; the witness was chosen after the batching challenge and put into the second commitment", st.desc()));
        }
        obs.seen("cheating prover rejected");
    }
    Ok(())
}
/// A first entry other than one, whose effect on one equation offsets the violation of another.
fn c02_first_offset(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 16, rng);
    let k = rng.gen_range(2, 9);
    let mut w = gen_w(n, Style::Dense, rng);
    let i = rng.gen_range(0, k);
    let mut j = rng.gen_range(0, k - 1);
    if j >= i {
        j += 1;
    }
    // equation i: w1 w2 = w0 w3; equation j: w1 w2 = 0; the other ones do not use the first entry
    w[3] = w[1] * w[2];
    let free: BTreeSet<u16> = [0u16].iter().cloned().collect();
    let mut gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &free, Style::Dense, rng)).collect();
    let zero = vec![vec![S::zero(); n - 2]; n - 2];
    let f = if rng.gen_range(0, 2) == 0 { S::one() } else { sc_nz(rng) };
    gamma[i] = zero.clone();
    gamma[i][1][2] = S::one();
    gamma[i][0][3] = -S::one();
    gamma[j] = zero;
    gamma[j][1][2] = f;
    // both effects are of one size
    w[0] = S::one() + f;
    let st = Stmt::Quad { crs: gen_crs(n, Style::Dense, rng), gamma };
    try_false_quad(&st, &w, &format!("the first entry is not one, equations {} and {} of {} offset it", i, j, k), true, rng, obs)
}

// ------------------------------------------------------------ C03

fn c03_single(rng: &mut Rng, obs: &mut Obs) -> Res {
    let max = big(obs, 16, 64);
    tamper_single(Kind::Quad, max, rng, obs)
}
fn c03_pairs(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_pairs(Kind::Quad, 16, rng, obs)
}
/// Number and order of the equations, order of the generators.
fn c03_shape(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(4, 16, rng);
    let k = rng.gen_range(1, 2 * n);
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let w = gen_w(n, style, rng);
    let gamma: Vec<Mat> = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), style, rng)).collect();
    let crs = gen_crs(n, Style::Dense, rng);
    let st = Stmt::Quad { crs: crs.clone(), gamma: gamma.clone() };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let p = match baseline(&st, &Wit::Quad(w), &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    let mut variants: Vec<(Stmt, &'static str)> = Vec::new();
    let with = |g: Vec<Mat>| Stmt::Quad { crs: crs.clone(), gamma: g };
    if k > 1 {
        let mut g = gamma.clone();
        let (i, j) = (rng.gen_range(0, k), rng.gen_range(0, k));
        g.swap(i, j);
        if g != gamma {
            variants.push((with(g), "two equations are exchanged"));
        }
        let mut g = gamma.clone();
        g.remove(rng.gen_range(0, k));
        if g != gamma {
            variants.push((with(g), "an equation is missing"));
        }
        let mut g = gamma.clone();
        g.pop();
        variants.push((with(g), "the last equation is missing"));
        let mut g = gamma.clone();
        g.reverse();
        if g != gamma {
            variants.push((with(g), "the equations are reversed"));
        }
    }
    let mut g = gamma.clone();
    g.push(gamma[k - 1].clone());
    variants.push((with(g), "an equation is repeated"));
    let mut g = gamma.clone();
    g.push(vec![vec![S::zero(); n - 2]; n - 2]);
    variants.push((with(g), "a zero equation is added"));
    let i = rng.gen_range(0, k);
    let mut g = gamma.clone();
    g[i] = refimpl::transpose(&g[i]);
    if g != gamma {
        variants.push((with(g), "an equation is transposed"));
    }
    let mut g = gamma.clone();
    g[i] = g[i].iter().map(|r| r.iter().map(|x| x + x).collect()).collect();
    if g != gamma {
        variants.push((with(g), "an equation is doubled"));
    }
    let mut c = crs.clone();
    let (i, j) = (rng.gen_range(0, n), rng.gen_range(0, n));
    if i != j {
        c.g.swap(i, j);
        variants.push((Stmt::Quad { crs: c, gamma: gamma.clone() }, "two generators are exchanged"));
        let mut c = crs.clone();
        c.h.swap(i, j);
        variants.push((Stmt::Quad { crs: c, gamma: gamma.clone() }, "two generators (second family) are exchanged"));
    }
    variants.push((
        Stmt::Quad { crs: Crs { g: crs.h.clone(), h: crs.g.clone(), q: crs.q }, gamma: gamma.clone() },
        "the generator families are exchanged",
    ));
    for (s2, what) in variants {
        obs.count("statement variant", 1);
        must_reject(&s2, &p, &ctx, what, obs)?;
    }
    Ok(())
}

// ------------------------------------------------------------ C04, C05

fn c04_ipa(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(1, big(obs, 64, 256), rng);
    let style = if rng.gen_range(0, 4) == 0 { Style::Dense } else { Style::Odd };
    let (st, w) = gen_ipa(n, style, rng);
    honest(&st, &w, rng, obs)
}
fn c04_alm(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(2, big(obs, 64, 256), rng);
    let style = if rng.gen_range(0, 4) == 0 { Style::Dense } else { Style::Odd };
    let (st, w) = gen_alm(n, style, rng);
    honest(&st, &w, rng, obs)
}
/// Every size up to the largest, plain and masked.
fn c04_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let top = big(obs, 11, 13);
    let v: Vec<(usize, bool)> = (0..=top).flat_map(|e| vec![(1usize << e, false), (2usize << e, true)]).collect();
    let (n, masked) = walk(&v);
    let (st, w) = if masked { gen_alm(n, pick_style(rng), rng) } else { gen_ipa(n, pick_style(rng), rng) };
    honest(&st, &w, rng, obs)
}
fn c05_ipa(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::Ipa, 32, rng, obs)
}
fn c05_alm(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::Alm, 32, rng, obs)
}
fn c05_pairs(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = if rng.gen_range(0, 2) == 0 { Kind::Ipa } else { Kind::Alm };
    tamper_pairs(k, 16, rng, obs)
}
/// The claimed value or the commitment is false from the start.
fn c05_false(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(1, 32, rng);
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let crs = gen_crs(n, Style::Dense, rng);
    let (a, b, _) = gen_vectors(n, style, rng);
    let t = ip(&a, &b);
    let (t2, how) = other_scalar(&t, rng);
    let c = msm(&a, &crs.g) + msm(&b, &crs.h);
    let mut cases: Vec<(Stmt, String)> = vec![
        (Stmt::Ipa { crs: crs.clone(), p: c + t2 * crs.q, t: t2 }, format!("the claimed value is false ({}), in commitment and claim", how)),
        (Stmt::Ipa { crs: crs.clone(), p: c + t * crs.q, t: t2 }, format!("the claimed value is false ({})", how)),
        (Stmt::Ipa { crs: crs.clone(), p: c + t2 * crs.q, t }, "the commitment contains another value".into()),
        (Stmt::Ipa { crs: crs.clone(), p: c + t * crs.q + pt(rng), t }, "the commitment is another one".into()),
        (Stmt::Ipa { crs: crs.clone(), p: c + t * crs.q + crs.g[rng.gen_range(0, n)], t }, "the committed vector differs in one entry".into()),
        (Stmt::Ipa { crs: crs.clone(), p: c + t * crs.q + crs.h[rng.gen_range(0, n)], t }, "the second committed vector differs in one entry".into()),
    ];
    if n >= 2 {
        cases.push((Stmt::Alm { crs: crs.clone(), c, t: t2 }, format!("the claimed value is false ({})", how)));
        cases.push((Stmt::Alm { crs: crs.clone(), c: c + crs.g[rng.gen_range(0, n)], t }, "the committed vector differs in one entry".into()));
        cases.push((Stmt::Alm { crs: crs.clone(), c: c + crs.h[rng.gen_range(0, n)], t }, "the second committed vector differs in one entry".into()));
        cases.push((Stmt::Alm { crs: crs.clone(), c: c + crs.q, t }, "the commitment has a component in the value's generator".into()));
    }
    let ctx = Ctx::gen(rng);
    for (st, what) in cases {
        obs.shape(format!("{}: {}", st.desc(), what));
        let w = Wit::Ab(a.clone(), b.clone());
        if let Ok(p) = prove(&st, &w, &mut ctx.tr()) {
            obs.count("proofs of false statements", 1);
            must_reject(&st, &p, &ctx, &what, obs)?;
        }
        impostor_rejected(&st, &st, &w, &ctx, &what, rng, obs)?;
        let p = refimpl::prove(&st, &w, &mut ctx.tr(), rng);
        obs.count("proofs of false statements", 1);
        must_reject(&st, &p, &ctx, &what, obs)?;
        // a cheating masked prover whose masks are orthogonal to nothing, or that claims a false
        // value through its masks
        if let Stmt::Alm { crs, c, t } = &st {
            let m = refimpl::Masks { r1: (0..n).map(|_| sc(rng)).collect(), r2: (0..n).map(|_| sc(rng)).collect() };
            let q = refimpl::alm_prove(&mut ctx.tr(), crs, c, &a, &b, t, &m);
            must_reject(&st, &Proof::Alm(q), &ctx, &what, obs)?;
        }
    }
    Ok(())
}

/// Provers whose commitments hold the vectors and the value with factors of their own: the last
/// step then agrees but for these factors.
fn c05_scaled(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(1, 32, rng);
    let crs = gen_crs(n, Style::Dense, rng);
    let (a, b, _) = gen_vectors(n, if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd }, rng);
    let t = ip(&a, &b);
    let ctx = Ctx::gen(rng);
    let half = S::from(2u64).invert();
    let any = sc(rng);
    let fs = [S::one(), -S::one(), S::from(2u64), half, S::zero(), any, S::from(8u64)];
    for i in 0..10 {
        // the two mirrored ones in every case
        let f = match i {
            0 => [-S::one(), -S::one(), -S::one()],
            1 => [S::one(), S::one(), -S::one()],
            2 => [S::one(), -S::one(), S::one()],
            _ => [fs[rng.gen_range(0, 7)], fs[rng.gen_range(0, 7)], fs[rng.gen_range(0, 7)]],
        };
        if (f[2] - f[0] * f[1]) * t == S::zero() {
            continue;
        }
        let what = format!("the value is {:?} times that of the vectors", f.iter().map(|x| fs.iter().position(|y| x == y).map_or("?", |p| ["1", "-1", "2", "1/2", "0", "random", "8"][p])).collect::<Vec<_>>());
        let v = f[2] * t;
        let c = f[0] * msm(&a, &crs.g) + f[1] * msm(&b, &crs.h);
        let st = Stmt::Ipa { crs: crs.clone(), p: c + v * crs.q, t: v };
        let p = refimpl::ipa_prove_scaled(&mut ctx.tr(), &crs, &a, &b, &f);
        obs.count("proofs with factors", 1);
        obs.shape(format!("{}: {}", st.desc(), what));
        must_reject(&st, &Proof::Ipa(p), &ctx, &what, obs)?;
        if n >= 2 {
            let st = Stmt::Alm { crs: crs.clone(), c, t: v };
            let m = refimpl::alm_masks(&a, &b, rng);
            let p = refimpl::alm_prove_scaled(&mut ctx.tr(), &crs, &c, &a, &b, &v, &m, &f);
            obs.count("proofs with factors", 1);
            obs.shape(format!("{}: {}", st.desc(), what));
            must_reject(&st, &Proof::Alm(p), &ctx, &what, obs)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C06-C09

fn c06_plain(rng: &mut Rng, obs: &mut Obs) -> Res {
    c06(false, rng, obs)
}
fn c06_zk(rng: &mut Rng, obs: &mut Obs) -> Res {
    c06(true, rng, obs)
}
fn c06(zk: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(1, big(obs, 32, 128), rng);
    let m = rng.gen_range(1, 8);
    let style = if rng.gen_range(0, 3) == 0 { Style::Dense } else { Style::Odd };
    let (st, w) = gen_lm2(m, n, zk, style, rng);
    honest(&st, &w, rng, obs)
}
/// Sizes one after the other: columns up to the largest power of two, many rows.
fn c06_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<(usize, usize)> = Vec::new();
    for e in 0..=big(obs, 10, 12) {
        v.push((1, 1 << e));
    }
    for m in 1..=40 {
        v.push((m, [1usize, 2, 4, 8][m % 4]));
    }
    v.extend([(64, 4), (65, 2), (130, 2), (257, 2), (300, 1), (3, 256), (17, 64)].iter());
    let (m, n) = walk(&v);
    let (st, w) = gen_lm2(m, n, rng.gen_range(0, 2) == 0, pick_style(rng), rng);
    honest(&st, &w, rng, obs)
}
/// Branching factors and numbers of columns, one after the other.
pub fn kn_sizes(thorough: bool) -> Vec<(usize, usize, usize)> {
    let (flat, work, kmax) = if thorough { (140, 24_000, 70) } else { (70, 6_000, 36) };
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    for k in 2..=kmax {
        let mut p = 1usize;
        loop {
            for r in 1..k {
                let n = r * p;
                // exact powers reach further than the other sizes
                if n <= flat || (r <= 2 && n * k * 2 <= work * 2 && n * k <= work) {
                    v.push((k, n, 1));
                }
            }
            p *= k;
            if p > work {
                break;
            }
        }
    }
    for m in 1..=40 {
        v.push((2 + m % 4, 2 + m % 4, m));
    }
    v.extend([(3, 3, 130), (2, 2, 257), (5, 25, 33)].iter());
    v.extend([64, 100, 127, 128, 129, 130, 200, 257].iter().map(|k| (*k, *k, 1)));
    v.extend([(129, 258, 1), (130, 129, 2)].iter());
    v
}
fn c08_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (k, n, m) = walk(&kn_sizes(obs.thorough));
    let (st, w) = gen_lmk(m, n, k, rng.gen_range(0, 3) == 0, pick_style(rng), rng);
    honest(&st, &w, rng, obs)
}
fn c08_plain(rng: &mut Rng, obs: &mut Obs) -> Res {
    c08(false, rng, obs)
}
fn c08_zk(rng: &mut Rng, obs: &mut Obs) -> Res {
    c08(true, rng, obs)
}
fn c08(zk: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let (k, n) = gen_kn(big(obs, 64, 250), rng);
    let m = rng.gen_range(1, 6);
    let style = if rng.gen_range(0, 3) == 0 { Style::Dense } else { Style::Odd };
    let (st, w) = gen_lmk(m, n, k, zk, style, rng);
    honest(&st, &w, rng, obs)
}
fn c07_plain(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::Lm2, 16, rng, obs)
}
fn c07_zk(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::Lm2Zk, 16, rng, obs)
}
fn c07_pairs(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = if rng.gen_range(0, 2) == 0 { Kind::Lm2 } else { Kind::Lm2Zk };
    tamper_pairs(k, 16, rng, obs)
}
fn c09_plain(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::LmK, 27, rng, obs)
}
fn c09_zk(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::LmKZk, 27, rng, obs)
}
fn c09_pairs(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = if rng.gen_range(0, 2) == 0 { Kind::LmK } else { Kind::LmKZk };
    tamper_pairs(k, 27, rng, obs)
}
/// Targets that are not the image of the witness.
fn false_target(t: &[P], rng: &mut Rng) -> (Vec<P>, String) {
    let m = t.len();
    let mut u = t.to_vec();
    let i = rng.gen_range(0, m);
    match rng.gen_range(0, 4) {
        0 if m > 1 => {
            let j = (i + rng.gen_range(1, m)) % m;
            let d = pt(rng);
            u[i] += d;
            u[j] -= d;
            (u, format!("rows {} and {} of the target are off by opposite amounts", i, j))
        }
        1 if m > 1 => {
            let j = (i + rng.gen_range(1, m)) % m;
            if u[i] == u[j] {
                u[i] += pt(rng);
            } else {
                u.swap(i, j);
            }
            (u, format!("rows {} and {} of the target are exchanged", i, j))
        }
        2 => {
            u[m - 1] = other_point(&u[m - 1], rng).0;
            (u, "the last row of the target is false".into())
        }
        _ => {
            u[i] = other_point(&u[i], rng).0;
            (u, format!("row {} of the target is false", i))
        }
    }
}
fn with_target(st: &Stmt, t2: Vec<P>) -> Stmt {
    match st {
        Stmt::Lm2 { a, zk, .. } => Stmt::Lm2 { a: a.clone(), t: t2, zk: *zk },
        Stmt::LmK { a, k, zk, .. } => Stmt::LmK { a: a.clone(), t: t2, k: *k, zk: *zk },
        _ => panic!(),
    }
}
fn lm_false(kind: Kind, rng: &mut Rng, obs: &mut Obs) -> Res {
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let (st, w) = match gen_any(kind, 27, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let t = match &st {
        Stmt::Lm2 { t, .. } | Stmt::LmK { t, .. } => t.clone(),
        _ => panic!(),
    };
    for _ in 0..2 {
        let (t2, what) = false_target(&t, rng);
        let bad = with_target(&st, t2);
        obs.shape(format!("{}: {}", bad.desc(), what));
        if let Ok(p) = prove(&bad, &w, &mut ctx.tr()) {
            obs.count("proofs of false statements", 1);
            must_reject(&bad, &p, &ctx, &what, obs)?;
        }
        // bound to the false statement
        let p = refimpl::prove(&bad, &w, &mut ctx.tr(), rng);
        obs.count("proofs of false statements", 1);
        must_reject(&bad, &p, &ctx, &what, obs)?;
        impostor_rejected(&st, &bad, &w, &ctx, &what, rng, obs)?;
        impostor_rejected(&bad, &bad, &w, &ctx, &what, rng, obs)?;
        // a proof of the true statement, presented for the false one
        if let Some(p) = baseline(&st, &w, &ctx, rng, obs) {
            must_reject(&bad, &p, &ctx, &what, obs)?;
        }
    }
    // another number of rows in the target
    if let Some(p) = baseline(&st, &w, &ctx, rng, obs) {
        let mut short = t.clone();
        short.pop();
        let mut long = t.clone();
        long.push(t[0]);
        let mut id = t.clone();
        id.push(P::identity());
        for (v, what) in vec![(short, "the target lacks a row"), (long, "the target has a surplus row"), (id, "the target has a surplus zero row")] {
            if v.is_empty() {
                continue;
            }
            obs.count("target with another number of rows", 1);
            must_reject(&with_target(&st, v), &p, &ctx, what, obs)?;
        }
    }
    Ok(())
}
/// Targets with errors in rows a given distance apart, over maps whose rows coincide.
fn lm_rows(kary: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut ds: Vec<usize> = (0..=36).collect();
    ds.extend_from_slice(&[63, 64, 65, 128, 256]);
    let d = walk(&ds);
    let m = d + 1 + rng.gen_range(0, 2);
    let zk = rng.gen_range(0, 2) == 0;
    let n = *[1usize, 2, 4].get(rng.gen_range(0, 3)).unwrap();
    let (k, n) = if kary { *[(2, 1), (2, 2), (2, 4), (3, 1), (3, 2), (3, 3), (4, 3)].get(rng.gen_range(0, 7)).unwrap() } else { (2, n) };
    let mut a = gen_pmat(m, n, Style::Dense, rng);
    let i = rng.gen_range(0, m - d);
    if rng.gen_range(0, 2) == 0 {
        a[i + d] = a[i].clone();
    }
    let w = scs(rng, n);
    let t = pmv(&a, &w);
    let mut t2 = t.clone();
    let e = pt(rng);
    t2[i] += e;
    if d > 0 {
        t2[i + d] += if rng.gen_range(0, 4) == 0 { e } else { -e };
    }
    let mk = |t: Vec<P>| if kary { Stmt::LmK { a: a.clone(), t, k, zk } } else { Stmt::Lm2 { a: a.clone(), t, zk } };
    let (good, bad) = (mk(t), mk(t2));
    let what = format!("rows {} and {} of the target are off by opposite amounts", i, i + d);
    obs.shape(format!("{}: {}", bad.desc(), what));
    let ctx = Ctx::gen(rng);
    let wit = Wit::Lm(w);
    if let Ok(p) = prove(&bad, &wit, &mut ctx.tr()) {
        obs.count("proofs of false statements", 1);
        must_reject(&bad, &p, &ctx, &what, obs)?;
    }
    let p = refimpl::prove(&bad, &wit, &mut ctx.tr(), rng);
    obs.count("proofs of false statements", 1);
    must_reject(&bad, &p, &ctx, &what, obs)?;
    impostor_rejected(&good, &bad, &wit, &ctx, &what, rng, obs)?;
    impostor_rejected(&bad, &bad, &wit, &ctx, &what, rng, obs)?;
    if let Some(p) = baseline(&good, &wit, &ctx, rng, obs) {
        must_reject(&bad, &p, &ctx, &what, obs)?;
    }
    Ok(())
}
fn c07_rows(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_rows(false, rng, obs)
}
fn c09_rows(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_rows(true, rng, obs)
}
fn c07_false(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = if rng.gen_range(0, 2) == 0 { Kind::Lm2 } else { Kind::Lm2Zk };
    lm_false(k, rng, obs)
}
fn c09_false(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = if rng.gen_range(0, 2) == 0 { Kind::LmK } else { Kind::LmKZk };
    lm_false(k, rng, obs)
}
/// Forged k-ary proofs: a proof of the prover's own statement dressed up for the verifier's one.
fn c09_forged(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (k, n) = gen_kn(27, rng);
    let m = rng.gen_range(1, 4);
    let zk = rng.gen_range(0, 2) == 0;
    let (own, w) = gen_lmk(m, n, k, zk, Style::Dense, rng);
    let (a1, t1) = match &own {
        Stmt::LmK { a, t, .. } => (a.clone(), t.clone()),
        _ => panic!(),
    };
    let w = match w {
        Wit::Lm(w) => w,
        _ => panic!(),
    };
    // the verifier's statement: same map or another one, another target
    let a2 = if rng.gen_range(0, 2) == 0 { a1.clone() } else { gen_pmat(m, n, Style::Dense, rng) };
    let t2 = if a2 == a1 { false_target(&t1, rng).0 } else { pts(rng, m) };
    let st = Stmt::LmK { a: a2.clone(), t: t2.clone(), k, zk };
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{} forged", st.desc()));
    for variant in 0..12 {
        let mut tr = ctx.tr();
        let (mut tt, mut ww, mut vt, mut mask) = (t1.clone(), w.clone(), t2.clone(), None);
        if zk {
            refimpl::bind_map(&mut tr, &a2, &t2);
            let r: Vec<S> = (0..n).map(|_| sc(rng)).collect();
            let mk = pmv(&a1, &r);
            for x in mk.iter() {
                tr.append_message(b"a", x.compress().as_bytes());
            }
            let beta = refimpl::chal(&mut tr, b"beta");
            ww = (0..n).map(|i| beta * w[i] + r[i]).collect();
            tt = (0..m).map(|i| beta * t1[i] + mk[i]).collect();
            vt = (0..m).map(|i| beta * t2[i] + mk[i]).collect();
            mask = Some(mk);
        }
        refimpl::bind_map(&mut tr, &a2, &vt);
        let start = if variant & 1 == 1 || variant >= 8 { vt.clone() } else { tt.clone() };
        let before = tr.vp_log().len();
        // late variants: the prover starts with the false target and goes over to the true one
        let at = 1 + rng.gen_range(0, 3);
        let correct = |round: usize| match variant {
            8 => round == 1,
            9 => round == at,
            10 => round >= 1,
            11 => round == 0,
            _ => false,
        };
        let mut z = refimpl::lmk_core_with(&mut tr, &a1, &start, &ww, k, &correct);
        if variant >= 8 && z.u.len() > 1 {
            obs.seen("provers that change the target under way");
        }
        let xs: Vec<S> = challenges(&log(&tr)[before..]).iter().map(|c| refimpl::wide(&c.1)).collect();
        let fold2 = refimpl::lmk_fold(&a2, k, &xs);
        if variant < 8 && variant & 2 == 2 {
            z.a = fold2.clone();
        }
        if variant < 8 && variant & 4 == 4 {
            z.t = pmv(&z.a, &z.w);
        }
        // claims that happen to be true are not forgeries
        obs.count("forged proofs", 1);
        must_reject(&st, &Proof::LmK { z, mask }, &ctx, &format!("it is a forgery (variant {})", variant), obs)?;
    }
    Ok(())
}

/// A map that the target is a transformed image of: rows negated, exchanged, turned, scaled, or
/// mixed so that their sum stays. The prover proves the transformed map instead.
fn lm_mixed(kary: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let m = rng.gen_range(1, 7);
    let (k, n) = if kary { gen_kn(27, rng) } else { (2, pow2_in(1, 16, rng)) };
    let zk = rng.gen_range(0, 2) == 0;
    let a = gen_pmat(m, n, Style::Dense, rng);
    let w = scs(rng, n);
    let t = pmv(&a, &w);
    let i = rng.gen_range(0, m);
    let j = (i + 1 + rng.gen_range(0, m.max(2) - 1)) % m;
    let mut x: Vec<Vec<S>> = (0..m).map(|r| (0..m).map(|c| if r == c { S::one() } else { S::zero() }).collect()).collect();
    let how = match rng.gen_range(0, 9) {
        0 => {
            for r in 0..m {
                x[r][r] = -S::one();
            }
            "all rows negated".to_string()
        }
        1 => {
            x[i][i] = -S::one();
            format!("row {} negated", i)
        }
        2 => {
            x.swap(i, j);
            format!("rows {} and {} exchanged", i, j)
        }
        3 => {
            x.rotate_left(1);
            "rows turned".to_string()
        }
        4 => {
            let d = sc(rng);
            x[i][j] += d;
            x[j][j] -= d;
            format!("a share of row {} moved from row {} to row {}", j, j, i)
        }
        5 => {
            for r in 0..m {
                for c in 0..m {
                    x[r][c] = sc(rng);
                }
            }
            // the columns sum to one
            for c in 0..m {
                let s: S = (0..m).map(|r| x[r][c]).sum();
                x[m - 1][c] += S::one() - s;
            }
            "rows mixed with their sum kept".to_string()
        }
        6 => {
            let f = [S::from(2u64), S::from(8u64), S::from(2u64).invert(), S::zero()][rng.gen_range(0, 4)];
            for r in 0..m {
                x[r][r] = f;
            }
            "all rows scaled".to_string()
        }
        7 => {
            // the last row is anything
            for c in 0..m {
                x[m - 1][c] = sc(rng);
            }
            "the last row replaced".to_string()
        }
        _ => {
            x.reverse();
            "rows reversed".to_string()
        }
    };
    let mix = |v: &[P]| -> Vec<P> { x.iter().map(|r| msm(r, v)).collect() };
    let own: PMat = {
        let cols: Vec<Vec<P>> = (0..n).map(|c| mix(&a.iter().map(|r| r[c]).collect::<Vec<_>>())).collect();
        (0..m).map(|r| cols.iter().map(|c| c[r]).collect()).collect()
    };
    let t2 = mix(&t);
    if t2 == t {
        return Ok(());
    }
    let st = if kary { Stmt::LmK { a: a.clone(), t: t2.clone(), k, zk } } else { Stmt::Lm2 { a: a.clone(), t: t2.clone(), zk } };
    let what = format!("{} in the target", how);
    obs.shape(format!("{}: {}", st.desc(), what));
    let ctx = Ctx::gen(rng);
    for variant in 0..if kary { 4 } else { 1 } {
        let mut tr = ctx.tr();
        let (mut vt, mut vw, mut mask) = (t2.clone(), w.clone(), None);
        if zk {
            refimpl::bind_map(&mut tr, &a, &t2);
            let r: Vec<S> = (0..n).map(|_| sc(rng)).collect();
            let mk = pmv(&own, &r);
            for x in mk.iter() {
                tr.append_message(b"a", x.compress().as_bytes());
            }
            let beta = refimpl::chal(&mut tr, b"beta");
            vw = (0..n).map(|i| beta * w[i] + r[i]).collect();
            vt = (0..m).map(|i| beta * t2[i] + mk[i]).collect();
            mask = Some(mk);
        }
        refimpl::bind_map(&mut tr, &a, &vt);
        let p = if kary {
            let before = tr.vp_log().len();
            let mut z = refimpl::lmk_core(&mut tr, &own, &vt, &vw, k);
            let xs: Vec<S> = challenges(&log(&tr)[before..]).iter().map(|c| refimpl::wide(&c.1)).collect();
            if variant & 1 == 1 {
                z.a = refimpl::lmk_fold(&a, k, &xs);
            }
            if variant & 2 == 2 {
                z.t = pmv(&z.a, &z.w);
            }
            Proof::LmK { z, mask }
        } else {
            Proof::Lm2 { z: refimpl::lm2_core(&mut tr, &own, &vw), mask }
        };
        obs.count("proofs of a transformed map", 1);
        must_reject(&st, &p, &ctx, &what, obs)?;
    }
    Ok(())
}
fn c07_mixed(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_mixed(false, rng, obs)
}
fn c09_mixed(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_mixed(true, rng, obs)
}
/// Weights with which a verifier might fold its rows into one.
fn folds(m: usize, xs: &[S], rng: &mut Rng) -> Vec<(String, Vec<S>)> {
    let mut v: Vec<(String, Vec<S>)> = vec![
        ("the sum of the rows".into(), vec![S::one(); m]),
        ("the rows with weights 1, 2, 3".into(), (0..m).map(|i| S::from(i as u64 + 1)).collect()),
        ("the rows with powers of 2".into(), (0..m).scan(S::one(), |a, _| { let b = *a; *a = b + b; Some(b) }).collect()),
        ("the rows with alternating signs".into(), (0..m).map(|i| if i % 2 == 0 { S::one() } else { -S::one() }).collect()),
    ];
    let i = rng.gen_range(0, m);
    v.push((format!("row {}", i), (0..m).map(|j| if i == j { S::one() } else { S::zero() }).collect()));
    for (c, x) in xs.iter().enumerate() {
        let p = |x: S| -> Vec<S> { refimpl::powers(x, m) };
        v.push((format!("the rows with powers of challenge {}", c), p(*x)));
        v.push((format!("the rows with powers of challenge {}, from the last", c), p(x.invert())));
        if xs.len() >= c + m {
            v.push((format!("the rows with challenges {} and on", c), xs[c..c + m].to_vec()));
        }
        if m == 2 {
            v.push((format!("a row plus challenge {}", c), vec![*x, S::one()]));
        }
    }
    v
}
/// A prover that knows the map and the target in the exponent, and picks its response so that one
/// combination of the rows agrees: the target is no image of the map.
fn lm_solved(kary: bool, rng: &mut Rng, obs: &mut Obs) -> Res {
    let m = rng.gen_range(2, 7);
    let (k, n) = if kary { gen_kn(16, rng) } else { (2, pow2_in(1, 8, rng)) };
    let zk = rng.gen_range(0, 2) == 0;
    let unit = pt(rng);
    let up = |v: &[S]| -> Vec<P> { v.iter().map(|x| x * unit).collect() };
    // fewer independent rows than rows
    let rank = n.min(m - 1);
    let base: Mat = (0..rank).map(|_| scs(rng, n)).collect();
    let mut al: Mat = (0..m)
        .map(|r| {
            let f: Vec<S> = if r < rank { (0..rank).map(|c| if c == r { S::one() } else { S::zero() }).collect() } else if rng.gen_range(0, 2) == 0 { scs(rng, rank) } else { (0..rank).map(|c| if c == 0 { S::one() } else { S::zero() }).collect() };
            (0..n).map(|j| (0..rank).map(|c| f[c] * base[c][j]).sum()).collect()
        })
        .collect();
    al.shuffle(rng);
    let tl = scs(rng, m);
    let a: PMat = al.iter().map(|r| up(r)).collect();
    let t = up(&tl);
    let st = if kary { Stmt::LmK { a: a.clone(), t: t.clone(), k, zk } } else { Stmt::Lm2 { a: a.clone(), t: t.clone(), zk } };
    obs.shape(format!("{} solved", st.desc()));
    let ctx = Ctx::gen(rng);
    let mut tr = ctx.tr();
    let start = tr.vp_log().len();
    let (mut vt, mut mask) = (tl.clone(), None);
    if zk {
        refimpl::bind_map(&mut tr, &a, &t);
        let mk = scs(rng, m);
        for x in up(&mk).iter() {
            tr.append_message(b"a", x.compress().as_bytes());
        }
        let beta = refimpl::chal(&mut tr, b"beta");
        vt = (0..m).map(|i| beta * tl[i] + mk[i]).collect();
        mask = Some(up(&mk));
    }
    refimpl::bind_map(&mut tr, &a, &up(&vt));
    // anything as commitments of the rounds
    let (mut ls, mut rs, mut us): (PMat, PMat, Vec<PMat>) = (vec![], vec![], vec![]);
    let mut size = n;
    let mut al = al;
    while if kary { size >= k } else { size > 1 } {
        let h = size / k;
        let app = |tr: &mut merlin::Transcript, l: &'static [u8], v: &[P]| {
            for x in v {
                tr.append_message(l, x.compress().as_bytes());
            }
        };
        if kary {
            let mut u: Mat = (0..2 * k - 1).map(|_| scs(rng, m)).collect();
            u[k - 1] = vt.clone();
            let up: PMat = u.iter().map(|r| up(r)).collect();
            for r in up.iter() {
                app(&mut tr, b"u_l", r);
            }
            let x = refimpl::chal(&mut tr, b"challenge_x");
            let y = x.invert();
            let pw = |x: S, e: usize| (0..e).fold(S::one(), |a, _| a * x);
            vt = (0..m).map(|q| (0..2 * k - 1).map(|l| u[l][q] * if l < k { pw(x, k - 1 - l) } else { pw(y, l + 1 - k) }).sum()).collect();
            al = al.iter().map(|r| (0..h).map(|c| (0..k).map(|i| pw(x, i) * r[i * h + c]).sum()).collect()).collect();
            us.push(up);
        } else {
            let (l, r) = (scs(rng, m), scs(rng, m));
            app(&mut tr, b"L", &up(&l));
            app(&mut tr, b"R", &up(&r));
            let c = refimpl::chal(&mut tr, b"challenge");
            vt = (0..m).map(|q| l[q] + c * vt[q] + c * c * r[q]).collect();
            al = al.iter().map(|row| (0..h).map(|i| row[i] + c * row[i + h]).collect()).collect();
            ls.push(up(&l));
            rs.push(up(&r));
        }
        size = h;
    }
    let make = |w: &[S], am: &Mat, tm: &[S]| -> Proof {
        if kary {
            Proof::LmK { z: LmKP { a: am.iter().map(|r| up(r)).collect(), t: up(tm), w: w.to_vec(), u: us.clone() }, mask: mask.clone() }
        } else {
            Proof::Lm2 { z: Lm2P { l: ls.clone(), r: rs.clone(), w: w[0] }, mask: mask.clone() }
        }
    };
    let mut w = scs(rng, size);
    // all challenges the verifier draws, its own ones included
    let mut tv = ctx.tr();
    let _ = verify(&st, &make(&w, &al, &vt), &mut tv);
    let xs: Vec<S> = challenges(&log(&tv)[start..]).iter().map(|c| refimpl::wide(&c.1)).collect();
    for (how, y) in folds(m, &xs, rng) {
        let col: Vec<S> = (0..size).map(|c| (0..m).map(|i| y[i] * al[i][c]).sum()).collect();
        if col[0] == S::zero() {
            continue;
        }
        let goal: S = (0..m).map(|i| y[i] * vt[i]).sum();
        w[0] = S::zero();
        w[0] = (goal - ip(&col, &w)) * col[0].invert();
        let what = format!("only {} of the target agree(s)", how);
        let img = mv(&al, &w);
        obs.count("solved responses", 1);
        must_reject(&st, &make(&w, &al, &vt), &ctx, &what, obs)?;
        if kary && w[0] != S::zero() {
            // a folded map of the prover's own, or a target
            let inv = w[0].invert();
            let mut am = al.clone();
            for i in 0..m {
                am[i][0] += (vt[i] - img[i]) * inv;
            }
            must_reject(&st, &make(&w, &am, &vt), &ctx, &what, obs)?;
            must_reject(&st, &make(&w, &al, &img), &ctx, &what, obs)?;
        }
    }
    Ok(())
}
fn c07_solved(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_solved(false, rng, obs)
}
fn c09_solved(rng: &mut Rng, obs: &mut Obs) -> Res {
    lm_solved(true, rng, obs)
}

// ------------------------------------------------------------ C10, C11

fn c10(style: Style, lo: usize, hi: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(lo, hi, rng);
    let k = rng.gen_range(1, 5);
    match gen_copy(n, k, style, rng) {
        Ok(c) => honest(&c.stmt, &c.wit, rng, obs),
        Err(e) => violation(e),
    }
}
fn c10_odd(rng: &mut Rng, obs: &mut Obs) -> Res {
    c10(Style::Odd, 8, 16, rng, obs)
}
fn c10_dense(rng: &mut Rng, obs: &mut Obs) -> Res {
    c10(Style::Dense, 8, 32, rng, obs)
}
fn c10_big(rng: &mut Rng, obs: &mut Obs) -> Res {
    let hi = big(obs, 64, 128);
    c10(Style::Dense, 64, hi, rng, obs)
}
/// Gaps, shared generators, many commitments, more equations than generators.
fn c10_shapes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(16, 32, rng);
    let nn = (n - 2) as u16;
    let set = |v: &[u16]| v.iter().cloned().collect::<BTreeSet<u16>>();
    let sets: Vec<BTreeSet<u16>> = match rng.gen_range(0, 7) {
        0 => vec![set(&[nn - 1]), set(&[nn - 1]), set(&[nn - 1])],
        1 => vec![set(&[1]), set(&[nn - 1])],
        2 => (0..6).map(|_| set(&[2])).collect(),
        3 => vec![set(&[nn - 3, nn - 1]), set(&[nn - 2]), set(&[nn - 3])],
        4 => vec![set(&[3, 5, 7]), set(&[4])],
        5 => (1..5u16).map(|i| set(&[i])).collect(),
        _ => vec![set(&[6, 8]), set(&[8, 6]), set(&[1, 6])],
    };
    let ws = rng.gen_range(1, 4);
    if model_map(n, ws, &sets).is_none() {
        return Ok(());
    }
    let k = if rng.gen_range(0, 4) == 0 { rng.gen_range(n - 2, n + 4) } else { rng.gen_range(1, 4) };
    let style = if rng.gen_range(0, 2) == 0 { Style::Odd } else { Style::Dense };
    match gen_copy_with(n, k, sets, ws, style, rng) {
        Ok(c) => honest(&c.stmt, &c.wit, rng, obs),
        Err(e) => violation(e),
    }
}
/// Numbers of commitments and positions, one after the other.
fn c10_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    // (size, commitments, messages each)
    v.extend((1..=5).map(|m| (8, m, 1)));
    v.extend((1..=12).map(|m| (16, m, 1)));
    v.extend((1..=28).map(|m| (32, m, 1)));
    v.extend([(64, 60, 1), (64, 20, 3), (128, 70, 1), (128, 1, 60), (256, 130, 1), (512, 260, 1), (512, 300, 1), (256, 2, 60)].iter());
    v.extend((1..=6).map(|k| (16, 1, k)));
    v.extend((1..=7).map(|k| (32, 2, k)));
    if obs.thorough {
        v.extend((1..=60).map(|m| (64, m, 1)));
        v.extend([(1024, 600, 1), (1024, 3, 200)].iter());
    }
    let (n, m, k) = walk(&v);
    // the last generators: an index above 255 where there is one
    let top = (n - 3) as u16;
    let sets: Vec<BTreeSet<u16>> = (0..m).map(|_| (0..k as u16).map(|i| top - i).collect()).collect();
    let ws = 1;
    if model_map(n, ws, &sets).is_none() {
        return Ok(());
    }
    match gen_copy_with(n, 1, sets, ws, pick_style(rng), rng) {
        Ok(c) => honest(&c.stmt, &c.wit, rng, obs),
        Err(e) => violation(e),
    }
}
fn c11_single(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_single(Kind::Copy, 16, rng, obs)
}
fn c11_pairs(rng: &mut Rng, obs: &mut Obs) -> Res {
    tamper_pairs(Kind::Copy, 16, rng, obs)
}
struct Cp {
    st: Stmt,
    crs: Crs,
    gamma: Vec<Mat>,
    map: MapParts,
    coms: Vec<P>,
    w: Vec<S>,
    openings: Vec<(Vec<S>, S)>,
    full: Vec<S>,
    sets: Vec<BTreeSet<u16>>,
}
fn copy_case(n: usize, rng: &mut Rng) -> Option<Cp> {
    let k = rng.gen_range(1, 4);
    let c = gen_copy(n, k, Style::Dense, rng).ok()?;
    split_copy(c)
}
fn split_copy(c: CopyCase) -> Option<Cp> {
    let CopyCase { stmt, wit, full, sets, .. } = c;
    match (stmt.clone(), wit) {
        (Stmt::Copy { crs, gamma, map, coms }, Wit::Copy { w, openings }) => {
            Some(Cp { st: stmt, crs, gamma, map, coms, w, openings, full, sets })
        }
        _ => None,
    }
}
impl Cp {
    fn stmt(&self, gamma: &[Mat], map: &MapParts, coms: &[P]) -> Stmt {
        Stmt::Copy { crs: self.crs.clone(), gamma: gamma.to_vec(), map: map.clone(), coms: coms.to_vec() }
    }
}
/// Commitments that open to something else than what the witness uses.
fn c11_commitments(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 16, rng);
    let c = match copy_case(n, rng) {
        Some(c) => c,
        None => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(c.st.desc());
    let wit = Wit::Copy { w: c.w.clone(), openings: c.openings.clone() };
    let base = baseline(&c.st, &wit, &ctx, rng, obs);
    let m = c.coms.len();
    let mut variants: Vec<(Vec<P>, String)> = Vec::new();
    let i = rng.gen_range(0, m);
    // message, blinding value, generator position
    let idx: Vec<u16> = c.sets[i].iter().cloned().collect();
    let j = rng.gen_range(0, idx.len().max(1));
    if !idx.is_empty() {
        let mut v = c.coms.clone();
        v[i] += other_scalar(&S::zero(), rng).0 * c.crs.g[idx[j] as usize];
        variants.push((v, format!("message {} of commitment {} differs", j, i)));
    }
    let mut v = c.coms.clone();
    v[i] += sc_nz(rng) * c.crs.g[n - 1];
    variants.push((v, format!("the blinding value of commitment {} differs", i)));
    let mut v = c.coms.clone();
    v[i] += sc_nz(rng) * c.crs.g[n - 2];
    variants.push((v, format!("commitment {} has a component in the other blinding generator", i)));
    let other = rng.gen_range(0, n - 2);
    if !c.sets[i].contains(&(other as u16)) {
        if !idx.is_empty() {
            let mut v = c.coms.clone();
            v[i] += c.openings[i].0[j] * (c.crs.g[other] - c.crs.g[idx[j] as usize]);
            variants.push((v, format!("message {} of commitment {} is committed over generator {}", j, i, other)));
        }
        let mut v = c.coms.clone();
        v[i] += sc_nz(rng) * c.crs.g[other];
        variants.push((v, format!("commitment {} has a surplus message over generator {}", i, other)));
    }
    let mut v = c.coms.clone();
    v[i] = P::identity();
    variants.push((v, format!("commitment {} is the identity", i)));
    let mut v = c.coms.clone();
    v[i] = -v[i];
    variants.push((v, format!("commitment {} is negated", i)));
    if m > 1 {
        let k = (i + rng.gen_range(1, m)) % m;
        let mut v = c.coms.clone();
        v.swap(i, k);
        variants.push((v, format!("commitments {} and {} are exchanged", i, k)));
        // offsetting errors, under several weak aggregations
        let d = pt(rng);
        for (f, name) in [(0u64, "equal"), (1, "linear"), (2, "quadratic")].iter() {
            let wgt = |x: usize| -> S {
                match f {
                    0 => S::one(),
                    1 => S::from(x as u64 + 1),
                    _ => S::from((x as u64 + 1) * (x as u64 + 1)),
                }
            };
            let mut v = c.coms.clone();
            v[i] += wgt(k) * d;
            v[k] -= wgt(i) * d;
            variants.push((v, format!("commitments {} and {} are off by offsetting errors ({})", i, k, name)));
        }
        let mut v = c.coms.clone();
        v.pop();
        let mut mp = c.map.clone();
        mp.num -= 1;
        let last = m as u16 - 1;
        mp.msgs.retain(|x| x.2 != last);
        mp.unique = mp.msgs.iter().map(|x| x.1).collect();
        if let Some(p) = &base {
            must_reject(&c.stmt(&c.gamma, &mp, &v), p, &ctx, "the last commitment is missing", obs)?;
        }
    }
    for (v, what) in variants {
        let st = c.stmt(&c.gamma, &c.map, &v);
        obs.count("commitment variants", 1);
        if let Some(p) = &base {
            must_reject(&st, p, &ctx, &what, obs)?;
        }
        // a prover that knows the verifier's commitments
        impostor_rejected(&c.st, &st, &wit, &ctx, &what, rng, obs)?;
        for agg in [true, false].iter() {
            let ch = CopyCheat { messages: None, aggregate_placed: *agg, quad: QuadCheat::claim(true), ..CopyCheat::honest() };
            let (cw, mut q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &c.gamma, &c.map, &v, &c.w, &c.openings, rng, &ch);
            obs.count("proofs of false statements by a cheating prover", 1);
            must_reject(&st, &Proof::Copy { cw, q: q.clone() }, &ctx, &what, obs)?;
            // with the commitment the verifier expects in the place of the real one
            let tr = ctx.tr();
            if let Some(x) = aggregated(&v, &cw, tr) {
                q.cp = x;
                must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
            }
        }
    }
    Ok(())
}
fn aggregated(coms: &[P], cw: &C, mut tr: merlin::Transcript) -> Option<C> {
    for c in coms {
        tr.append_message(b"commitment", c.compress().as_bytes());
    }
    tr.append_message(b"c_w", cw.as_bytes());
    let al = refimpl::alphas(&mut tr, coms.len());
    let mut x = cw.decompress()?;
    for (a, c) in al.iter().zip(coms) {
        x += a * c;
    }
    Some(x.compress())
}
/// Commitments a given distance apart that are off by opposite amounts.
fn c11_distance(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut ds: Vec<usize> = (1..=if obs.thorough { 50 } else { 27 }).collect();
    ds.extend_from_slice(&[64, 32, 128, 63, 31, 48, 96]);
    if obs.thorough {
        ds.extend_from_slice(&[65, 100, 127, 129, 200, 255, 256]);
    }
    let d = walk(&ds);
    let m = d + 1;
    let n = [8usize, 16, 32, 64, 128, 256, 512].iter().cloned().find(|n| n - 4 >= m).unwrap();
    let sets: Vec<BTreeSet<u16>> = (0..m).map(|_| [(n - 3) as u16].iter().cloned().collect()).collect();
    let c = match gen_copy_with(n, 1, sets, 1, Style::Dense, rng).ok().and_then(split_copy) {
        Some(c) => c,
        None => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let what = format!("commitments 0 and {} of {} are off by opposite amounts", d, m);
    obs.shape(format!("{}: {}", c.st.desc(), what));
    let e = sc_nz(rng) * c.crs.g[n - 3];
    let mut v = c.coms.clone();
    v[0] += e;
    v[d] -= e;
    let st = c.stmt(&c.gamma, &c.map, &v);
    obs.count("commitment variants", 1);
    impostor_rejected(&c.st, &st, &Wit::Copy { w: c.w.clone(), openings: c.openings.clone() }, &ctx, &what, rng, obs)?;
    for agg in [true, false].iter() {
        let ch = CopyCheat { messages: None, aggregate_placed: *agg, quad: QuadCheat::claim(true), ..CopyCheat::honest() };
        let (cw, q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &c.gamma, &c.map, &v, &c.w, &c.openings, rng, &ch);
        obs.count("proofs of false statements by a cheating prover", 1);
        must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
    }
    // the same with the messages in the witness, against the true commitments
    let mut placed: Vec<S> = c.openings.iter().flat_map(|o| o.0.iter().cloned()).collect();
    let f = sc_nz(rng);
    placed[0] += f;
    placed[d] -= f;
    let mut full = c.full.clone();
    for (k, x) in c.map.msgs.iter().enumerate() {
        full[x.3 as usize] = placed[k];
    }
    let gamma = vec![gen_eq(&full, &c.map.unique, Style::Dense, rng)];
    let st = c.stmt(&gamma, &c.map, &c.coms);
    let what = format!("messages 0 and {} of {} are off by opposite amounts", d, m);
    let ops: Vec<(Vec<S>, S)> = placed.iter().zip(c.openings.iter()).map(|(x, o)| (vec![*x], o.1)).collect();
    impostor_rejected(&st, &st, &Wit::Copy { w: c.w.clone(), openings: ops.clone() }, &ctx, &what, rng, obs)?;
    if let Ok(p) = prove(&st, &Wit::Copy { w: c.w.clone(), openings: ops }, &mut ctx.tr()) {
        obs.count("proofs of false statements", 1);
        must_reject(&st, &p, &ctx, &what, obs)?;
    }
    for agg in [true, false].iter() {
        let ch = CopyCheat { messages: Some(placed.clone()), aggregate_placed: *agg, quad: QuadCheat::claim(true), ..CopyCheat::honest() };
        let (cw, q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &gamma, &c.map, &c.coms, &c.w, &c.openings, rng, &ch);
        obs.count("proofs of false statements by a cheating prover", 1);
        must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
    }
    Ok(())
}
/// One commitment has a component at the place of a message, which offsets the difference between
/// the message another commitment opens to and the value placed for it.
fn c11_stray(rng: &mut Rng, obs: &mut Obs) -> Res {
    let m = rng.gen_range(2, 7);
    let n = [16usize, 32][rng.gen_range(0, 2)];
    let j = rng.gen_range(1, n - 2) as u16;
    let sets: Vec<BTreeSet<u16>> = (0..m).map(|_| [j].iter().cloned().collect()).collect();
    let ws = rng.gen_range(1, 4);
    if model_map(n, ws, &sets).is_none() {
        return Ok(());
    }
    let c = match gen_copy_with(n, 1, sets, ws, Style::Dense, rng).ok().and_then(split_copy) {
        Some(c) => c,
        None => return Ok(()),
    };
    // commitment s has a component where the message of commitment a is placed; commitment b pays for it
    let (s, a) = (rng.gen_range(0, m), rng.gen_range(0, m));
    let b = if s + a + 1 < m && rng.gen_range(0, 3) > 0 { s + a + 1 } else { rng.gen_range(0, m) };
    let d = sc_nz(rng);
    let at = c.map.msgs[a].3 as usize;
    let mut coms = c.coms.clone();
    coms[s] += d * c.crs.g[at];
    coms[b] += d * c.crs.g[j as usize];
    let mut openings = c.openings.clone();
    openings[b].0[0] += d;
    let placed: Vec<S> = c.openings.iter().map(|o| o.0[0]).collect();
    // the equations hold for the placed values and do not involve message a
    let mut free = c.map.unique.clone();
    if a != b {
        free.insert(at as u16);
    }
    let gamma: Vec<Mat> = (0..rng.gen_range(1, 4)).map(|_| gen_eq(&c.full, &free, Style::Dense, rng)).collect();
    let st = c.stmt(&gamma, &c.map, &coms);
    let ctx = Ctx::gen(rng);
    let what = format!(
        "message {} differs from the placed value, offset by a component of commitment {} at the place of message {}", b, s, a
    );
    obs.shape(format!("{}: {}", c.st.desc(), what));
    for claim in [true, false].iter() {
        let ch = CopyCheat {
            messages: Some(placed.clone()),
            aggregate_placed: false,
            stray: vec![(s, at, d)],
            quad: QuadCheat::claim(*claim),
        };
        let (cw, q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &gamma, &c.map, &coms, &c.w, &openings, rng, &ch);
        obs.count("proofs of false statements by a cheating prover", 1);
        must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
    }
    Ok(())
}
/// Messages in the witness that differ from the committed ones; the equations hold for the placed ones.
fn c11_messages(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 16, rng);
    let c = match copy_case(n, rng) {
        Some(c) => c,
        None => return Ok(()),
    };
    let committed: Vec<S> = c.openings.iter().flat_map(|o| o.0.iter().cloned()).collect();
    let mut placed = committed.clone();
    let i = rng.gen_range(0, placed.len());
    let what;
    // offsetting errors over the same generator in different commitments, under weak aggregations
    let same: Vec<usize> = (0..placed.len()).filter(|j| *j != i && c.map.msgs[*j].1 == c.map.msgs[i].1).collect();
    if !same.is_empty() && rng.gen_range(0, 3) > 0 {
        let j = same[rng.gen_range(0, same.len())];
        let d = sc_nz(rng);
        let (ci, cj) = (c.map.msgs[i].2 as u64 + 1, c.map.msgs[j].2 as u64 + 1);
        let (fi, fj, name) = match rng.gen_range(0, 3) {
            0 => (S::one(), S::one(), "equal"),
            1 => (S::from(ci), S::from(cj), "linear"),
            _ => (S::from(ci * ci), S::from(cj * cj), "quadratic"),
        };
        placed[i] += d * fj;
        placed[j] -= d * fi;
        what = format!("messages {} and {} over generator {} are off by offsetting errors ({})", i, j, c.map.msgs[i].1, name);
        obs.count("offsetting message errors", 1);
    } else if placed.len() > 1 && rng.gen_range(0, 3) == 0 {
        let j = (i + rng.gen_range(1, placed.len())) % placed.len();
        placed.swap(i, j);
        what = format!("messages {} and {} are exchanged", i, j);
    } else {
        placed[i] = other_scalar(&placed[i], rng).0;
        what = format!("message {} differs from the committed one", i);
    }
    if placed == committed {
        return Ok(());
    }
    // equations that hold for the placed values
    let mut full = c.full.clone();
    for (k, m) in c.map.msgs.iter().enumerate() {
        full[m.3 as usize] = placed[k];
    }
    let gamma: Vec<Mat> = (0..rng.gen_range(1, 4)).map(|_| gen_eq(&full, &c.map.unique, Style::Dense, rng)).collect();
    let st = c.stmt(&gamma, &c.map, &c.coms);
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{}: {}", st.desc(), what));
    // the crate's prover given the placed messages as openings
    let mut ops = Vec::new();
    let mut it = placed.iter();
    for o in c.openings.iter() {
        ops.push((it.by_ref().take(o.0.len()).cloned().collect::<Vec<S>>(), o.1));
    }
    let false_wit = Wit::Copy { w: c.w.clone(), openings: ops };
    impostor_rejected(&st, &st, &false_wit, &ctx, &what, rng, obs)?;
    if let Ok(p) = prove(&st, &false_wit, &mut ctx.tr()) {
        obs.count("proofs of false statements", 1);
        must_reject(&st, &p, &ctx, &what, obs)?;
    }
    for agg in [true, false].iter() {
        for claim in [true, false].iter() {
            let ch = CopyCheat {
                messages: Some(placed.clone()),
                aggregate_placed: *agg,
                quad: QuadCheat::claim(*claim),
                ..CopyCheat::honest()
            };
            let (cw, mut q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &gamma, &c.map, &c.coms, &c.w, &c.openings, rng, &ch);
            obs.count("proofs of false statements by a cheating prover", 1);
            must_reject(&st, &Proof::Copy { cw, q: q.clone() }, &ctx, &what, obs)?;
            if let Some(x) = aggregated(&c.coms, &cw, ctx.tr()) {
                q.cp = x;
                must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
            }
        }
    }
    Ok(())
}
/// Another placement than the proven one; violated equations.
fn c11_placement(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = pow2_in(8, 16, rng);
    let c = match copy_case(n, rng) {
        Some(c) => c,
        None => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(c.st.desc());
    let wit = Wit::Copy { w: c.w.clone(), openings: c.openings.clone() };
    let p = match baseline(&c.st, &wit, &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    let k = c.map.msgs.len();
    let i = rng.gen_range(0, k);
    let mut vars: Vec<(MapParts, String)> = Vec::new();
    let mut m = c.map.clone();
    let np = rng.gen_range(1, n - 2) as u16;
    if np != m.msgs[i].3 && !m.unique.contains(&np) {
        m.msgs[i].3 = np;
        vars.push((m, format!("message {} is placed at {}", i, np)));
    }
    if k > 1 {
        let j = (i + rng.gen_range(1, k)) % k;
        let mut m = c.map.clone();
        let t = m.msgs[i].3;
        m.msgs[i].3 = m.msgs[j].3;
        m.msgs[j].3 = t;
        // exchanging the places of a message's own aggregate changes nothing only if index and commitment agree
        if (m.msgs[i].1, m.msgs[i].2) != (m.msgs[j].1, m.msgs[j].2) {
            vars.push((m, format!("the places of messages {} and {} are exchanged", i, j)));
        }
        let mut m = c.map.clone();
        if m.msgs[i].2 != m.msgs[j].2 {
            m.msgs[i].2 = m.msgs[j].2;
            vars.push((m, format!("message {} is attributed to another commitment", i)));
        }
        let mut m = c.map.clone();
        if m.msgs[i].1 != m.msgs[j].1 {
            m.msgs[i].1 = m.msgs[j].1;
            m.unique = m.msgs.iter().map(|x| x.1).collect();
            vars.push((m, format!("message {} is attributed to another generator", i)));
        }
    }
    for (m, what) in vars {
        obs.count("placement variants", 1);
        must_reject(&c.stmt(&c.gamma, &m, &c.coms), &p, &ctx, &what, obs)?;
    }
    // violated equations
    let mut g = c.gamma.clone();
    let e = rng.gen_range(0, g.len());
    let ok: Vec<usize> = (0..n - 2).filter(|x| !c.map.unique.contains(&(*x as u16)) && c.full[*x] != S::zero()).collect();
    let (a, b) = (ok[rng.gen_range(0, ok.len())], ok[rng.gen_range(0, ok.len())]);
    g[e][a][b] += sc_nz(rng);
    let st = c.stmt(&g, &c.map, &c.coms);
    let what = format!("equation {} is violated", e);
    impostor_rejected(&c.st, &st, &wit, &ctx, &what, rng, obs)?;
    impostor_rejected(&st, &st, &wit, &ctx, &what, rng, obs)?;
    if let Ok(p) = prove(&st, &wit, &mut ctx.tr()) {
        obs.count("proofs of false statements", 1);
        must_reject(&st, &p, &ctx, &what, obs)?;
    }
    let ch = CopyCheat { messages: None, aggregate_placed: true, quad: QuadCheat::claim(true), ..CopyCheat::honest() };
    let (cw, q) = refimpl::copy_prove(&mut ctx.tr(), &c.crs, &g, &c.map, &c.coms, &c.w, &c.openings, rng, &ch);
    must_reject(&st, &Proof::Copy { cw, q }, &ctx, &what, obs)?;
    // equations in another order
    if c.gamma.len() > 1 {
        let mut g = c.gamma.clone();
        g.reverse();
        if g != c.gamma {
            must_reject(&c.stmt(&g, &c.map, &c.coms), &p, &ctx, "the equations are reversed", obs)?;
        }
        let mut g = c.gamma.clone();
        g.pop();
        must_reject(&c.stmt(&g, &c.map, &c.coms), &p, &ctx, "an equation is missing", obs)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let a_crypto = "a random change is accepted with probability of about n/2^252; the discrete logarithm between random generators is unknown to the workload's provers";
    vec![
        Prop {
            id: "C01",
            rule: "a case is a random statement with a satisfied witness, proven by the crate and given to its verifier; non-trivial if a verdict was observed, distinct by statement shape and proof bytes",
            fams: vec![
                fam("odd values", 6, c01_odd), fam("dense values", 3, c01_dense), fam("more equations than generators", 4, c01_many),
                fam("extreme witnesses", 4, c01_extreme), fam("large", 1, c01_big), fam("every size", 2, c01_sizes), fam("very large", 0, c01_huge),
            ],
            quick: 12000, thorough: 130_000, threads: 0, must_see: vec!["honest accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C02",
            rule: "a case is a statement whose witness violates an equation or the fixed first entry, proven by the crate's prover and by cheating provers; non-trivial if a verdict was observed, distinct by statement shape and proof bytes",
            fams: vec![
                fam("single violated entry", 5, c02_single), fam("violated equation among many", 4, c02_many),
                fam("offsetting errors", 6, c02_offset), fam("first entry not one", 3, c02_first),
                fam("first entry not one, unused", 1, c02_first_unused), fam("wrong witness entry", 3, c02_witness),
                fam("commitments to different witnesses", 2, c02_second),
                fam("witness chosen late", 1, c02_late), fam("weights of equations", 2, c02_weights), fam("first entry offsets a violation", 2, c02_first_offset),
                fam("opposite errors at every distance", 3, c02_distance), fam("violation at every place", 4, c02_places), fam("very large", 0, c02_huge),
            ],
            quick: 3200, thorough: 120_000, threads: 0, must_see: vec!["rejected", "cheating prover rejected"], assumptions: vec![a_crypto], finish: None,
        },
        Prop {
            id: "C03",
            rule: "a case is an accepted proof whose components, statement or context are changed one or two at a time; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("single component", 3, c03_single), fam("two components", 2, c03_pairs), fam("shape and order", 2, c03_shape), fam("changes at every size", 1, c03_sizes), fam("very large", 0, c03_huge)],
            quick: 3000, thorough: 14_000, threads: 0, must_see: vec!["baseline accepted", "rejected"], assumptions: vec![a_crypto], finish: None,
        },
        Prop {
            id: "C04",
            rule: "a case is a pair of vectors (dense, sparse, zero, orthogonal, self-orthogonal, parallel) with generators and context; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain", 40, c04_ipa), fam("masked", 40, c04_alm), fam("every size", 1, c04_sizes), fam("very large", 0, c04_huge)],
            quick: 11000, thorough: 130_000, threads: 0, must_see: vec!["honest accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C05",
            rule: "a case is an accepted proof changed in one or two places, or a proof made for a false commitment or value; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain, single component", 2, c05_ipa), fam("masked, single component", 2, c05_alm), fam("two components", 2, c05_pairs), fam("false claim", 3, c05_false), fam("factors", 1, c05_scaled), fam("changes at every size", 1, c05_sizes), fam("very large", 0, c05_huge)],
            quick: 2000, thorough: 30_000, threads: 0, must_see: vec!["baseline accepted", "rejected", "proofs of false statements"], assumptions: vec![a_crypto], finish: None,
        },
        Prop {
            id: "C06",
            rule: "a case is a random map, witness and context; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain", 20, c06_plain), fam("masked", 20, c06_zk), fam("every size", 1, c06_sizes), fam("very large", 0, c06_huge)],
            quick: 7000, thorough: 90_000, threads: 0, must_see: vec!["honest accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C07",
            rule: "a case is an accepted proof changed in one or two places, or a proof for a false target; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain, single component", 2, c07_plain), fam("masked, single component", 2, c07_zk), fam("two components", 2, c07_pairs), fam("false target", 4, c07_false), fam("false rows at every distance", 1, c07_rows), fam("transformed map", 1, c07_mixed), fam("solved response", 1, c07_solved), fam("changes at every size", 1, c07_sizes), fam("very large", 0, c07_huge)],
            quick: 1900, thorough: 30_000, threads: 0, must_see: vec!["baseline accepted", "rejected", "proofs of false statements"], assumptions: vec![a_crypto], finish: None,
        },
        Prop {
            id: "C08",
            rule: "a case is a branching factor, a map, a witness and a context; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain", 1, c08_plain), fam("masked", 1, c08_zk), fam("every size", 2, c08_sizes), fam("very large", 0, c08_huge)],
            quick: 6500, thorough: 40_000, threads: 0, must_see: vec!["honest accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C09",
            rule: "a case is an accepted proof changed in one or two places, a proof for a false target, or a forgery assembled from a proof of another statement; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("plain, single component", 2, c09_plain), fam("masked, single component", 2, c09_zk), fam("two components", 2, c09_pairs), fam("false target", 4, c09_false), fam("false rows at every distance", 1, c09_rows), fam("transformed map", 1, c09_mixed), fam("solved response", 1, c09_solved), fam("forgeries", 3, c09_forged), fam("changes at every size", 1, c09_sizes), fam("very large", 0, c09_huge)],
            quick: 1500, thorough: 20_000, threads: 0, must_see: vec!["baseline accepted", "rejected", "proofs of false statements", "forged proofs"], assumptions: vec![a_crypto], finish: None,
        },
        Prop {
            id: "C10",
            rule: "a case is a set of commitments, a feasible placement and a satisfied witness; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![fam("odd values", 4, c10_odd), fam("dense values", 3, c10_dense), fam("special index sets", 4, c10_shapes), fam("large", 1, c10_big), fam("every size", 1, c10_sizes), fam("very large", 0, c10_huge)],
            quick: 3600, thorough: 50_000, threads: 0, must_see: vec!["honest accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C11",
            rule: "a case is an accepted proof with changed components, commitments or placement, or a proof by a prover whose witness does not hold the committed values; non-trivial if a verdict was observed, distinct by proof bytes",
            fams: vec![
                fam("single component", 3, c11_single), fam("weights of messages", 2, c11_weights), fam("two components", 2, c11_pairs), fam("false commitments", 2, c11_commitments),
                fam("false messages", 4, c11_messages), fam("placement and equations", 3, c11_placement), fam("opposite errors at every distance", 1, c11_distance), fam("component at the place of a message", 2, c11_stray), fam("changes at every size", 1, c11_sizes), fam("very large", 0, c11_huge),
            ],
            quick: 1300, thorough: 16_000, threads: 0, must_see: vec!["baseline accepted", "rejected", "commitment variants", "offsetting message errors", "placement variants"], assumptions: vec![a_crypto], finish: None,
        },
    ]
}
#[allow(dead_code)]
fn _unused(r: Res) -> Res {
    ensure!(true, "x");
    r
}
