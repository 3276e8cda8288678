//! C12, C14, C16-C20, C22-C25.
#![allow(non_snake_case)]
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::props_verdict::{baseline, pick};
use crate::proto::*;
use crate::refimpl;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::traits::Identity;
use merlin::{Transcript, VpEvent};
use qesa::hooks;
use qesa::matrix as mx;
use qesa::transcript::TranscriptProtocol;
use rand::{Rng as _, RngCore};
use std::collections::{BTreeSet, HashSet};
use std::sync::Mutex;

// ------------------------------------------------------------ C12

fn map_case(n: usize, ws: usize, sets: &[BTreeSet<u16>], obs: &mut Obs) -> Res {
    let got = guard(|| hooks::copy::compute_mapping(n, ws, sets));
    let want = if n > u16::max_value() as usize { None } else { model_map(n, ws, sets) };
    if sets.len() < 2000 {
        obs.shape(format!("n={} ws={} sets={:?}", n, ws, sets));
    } else {
        obs.shape(format!("n={} ws={} sets={} times {:?} to {:?}", n, ws, sets.len(), sets[0], sets[sets.len() - 1]));
    }
    match (got, want) {
        (Err(_), None) => {
            obs.seen("infeasible refused");
            Ok(())
        }
        (Ok(m), Some(w)) => {
            obs.seen("placement compared");
            let g = MapParts::of(&m);
            if sets.len() >= 2000 {
                let at = g.msgs.iter().zip(w.msgs.iter()).position(|(a, b)| a != b);
                ensure!(g == w, "compute_mapping(n={}, witness_size={}, {} sets) differs from the model at message {:?} of {}", n, ws, sets.len(), at, w.msgs.len());
            }
            ensure!(g == w, "compute_mapping(n={}, witness_size={}, {:?}) = {:?}, expected {:?}", n, ws, sets, g, w);
            // the property itself, independent of the model
            let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
            let mut last = None;
            for (id, ix, cs, pos) in g.msgs.iter() {
                let pos = *pos as usize;
                ensure!(pos >= ws && pos < n - 2, "message {} outside the free part: {:?}", id, g);
                ensure!(!used.contains(&(pos as u16)), "message {} on a generator index: {:?}", id, g);
                ensure!(last.map_or(true, |l| pos > l), "positions not ascending: {:?}", g);
                ensure!(sets[*cs as usize].contains(ix), "message {} has a foreign index: {:?}", id, g);
                last = Some(pos);
            }
            Ok(())
        }
        (Ok(m), None) => violation(format!(
            "compute_mapping(n={}, witness_size={}, {:?}) must be refused, returned {:?}", n, ws, sets, MapParts::of(&m)
        )),
        (Err(e), Some(w)) if sets.len() >= 2000 => violation(format!(
            "compute_mapping(n={}, witness_size={}, {} sets) with {} messages is feasible but was refused: {}", n, ws, sets.len(), w.msgs.len(), e
        )),
        (Err(e), Some(_)) => violation(format!("compute_mapping(n={}, witness_size={}, {:?}) is feasible but was refused: {}", n, ws, sets, e)),
    }
}
fn rand_sets(lo: u16, hi: u16, cmax: usize, kmax: usize, rng: &mut Rng) -> Vec<BTreeSet<u16>> {
    (0..rng.gen_range(1, cmax + 1))
        .map(|_| (0..rng.gen_range(1, kmax + 1)).map(|_| rng.gen_range(lo, hi)).collect())
        .collect()
}
fn c12_small(rng: &mut Rng, obs: &mut Obs) -> Res {
    // any subsets, feasible or not
    let n = rng.gen_range(4, 20);
    let c = rng.gen_range(1, 5);
    let sets: Vec<BTreeSet<u16>> = (0..c)
        .map(|_| (0..n as u16 + 2).filter(|_| rng.gen_range(0, 6) == 0).collect())
        .collect();
    map_case(n, rng.gen_range(0, n + 3), &sets, obs)
}
fn c12_valid(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.gen_range(8, 80);
    let sets = rand_sets(1, n as u16 - 2, 6, 5, rng);
    map_case(n, rng.gen_range(1, n / 2), &sets, obs)
}
/// Requests that just fit and that just do not fit.
fn c12_tight(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.gen_range(8, 60);
    let sets = rand_sets(1, n as u16 - 2, 5, 4, rng);
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let uni: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let free: Vec<usize> = (1..n - 2).filter(|p| !uni.contains(&(*p as u16))).collect();
    if free.len() < total {
        return map_case(n, 1, &sets, obs);
    }
    let last_ok = free[free.len() - total];
    for ws in [last_ok, last_ok + 1, last_ok.saturating_sub(1).max(1)].iter() {
        map_case(n, *ws, &sets, obs)?;
    }
    Ok(())
}
/// Reserved and out-of-range indices.
fn c12_reserved(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.gen_range(12, 100);
    let mut sets = rand_sets(1, n as u16 - 2, 3, 2, rng);
    let bad = [0u16, n as u16 - 2, n as u16 - 1, n as u16, n as u16 + 1, u16::max_value(), n as u16 - 3];
    let i = rng.gen_range(0, sets.len());
    sets[i].insert(bad[rng.gen_range(0, bad.len())]);
    map_case(n, rng.gen_range(1, 4), &sets, obs)
}
/// Numbers of commitments and of messages one after the other.
fn c12_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let i = nth() as usize;
    let c = 1 + i % 300;
    let k = if i % 3 == 0 { 1 + (i / 3) % 260 } else { 1 + i % 4 };
    let n = (c * k + k + 5).max(8) + rng.gen_range(0, 4);
    if n > 20_000 {
        return Ok(());
    }
    let base = rng.gen_range(1, (n - 2 - k).max(2)) as u16;
    let sets: Vec<BTreeSet<u16>> = (0..c).map(|_| (base..base + k as u16).collect()).collect();
    map_case(n, rng.gen_range(1, 4), &sets, obs)
}
/// Sizes around the 16-bit limit.
fn c12_large(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = [65535usize, 65534, 65536, 65540, 65537 + 64, 131072, 32768, 65536 + 1024][rng.gen_range(0, 8)];
    let sets = if rng.gen_range(0, 2) == 0 {
        rand_sets(1, 60, 3, 3, rng)
    } else {
        rand_sets(65000, 65533, 3, 3, rng)
    };
    let ws = [1usize, 100, 65000, 65510, 65529, 65536 + 1, 70000][rng.gen_range(0, 7)];
    map_case(n, ws, &sets, obs)
}
/// Tens of thousands of messages, under few or many commitments, some of them empty.
fn c12_crowded(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = [65535usize, 65534, 60_000, 50_000, 32_769, 30_000][rng.gen_range(0, 6)];
    let k = [1usize, 1, 2, 3, 7, 100][rng.gen_range(0, 6)];
    let lo = rng.gen_range(1, (n - 2 - k) as u64) as u16;
    let lo = if rng.gen_range(0, 3) == 0 { 1 } else { lo };
    let ws = [1usize, 2, 1000][rng.gen_range(0, 3)];
    let room = (ws..n - 2).filter(|p| *p < lo as usize || *p >= lo as usize + k).count();
    let c = match rng.gen_range(0, 5) {
        0 => room / k,
        1 => room / k + 1,
        2 => (21_846 / k + 1).min(room / k),
        3 => (32_768 / k + 1).min(room / k),
        _ => rng.gen_range(1, room / k + 1),
    };
    let mut sets: Vec<BTreeSet<u16>> = (0..c).map(|_| (lo..lo + k as u16).collect()).collect();
    if rng.gen_range(0, 3) == 0 {
        for _ in 0..rng.gen_range(1, 40) {
            let i = rng.gen_range(0, sets.len() + 1);
            sets.insert(i, BTreeSet::new());
        }
    }
    map_case(n, ws, &sets, obs)?;
    obs.seen("tens of thousands of messages placed");
    Ok(())
}

// ------------------------------------------------------------ C14

fn support(n: usize) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = [0, 1, n - 2, n - 1].iter().cloned().collect();
    let mut i = 2;
    while i + 1 < n {
        s.insert(i);
        s.insert(i + 1);
        i *= 2;
    }
    s
}
fn gs1(a: &[S]) -> Result<Vec<S>, Fail> {
    for x in a {
        fp(x.as_bytes());
    }
    guard(|| hooks::gramschmidt::sample_gram_schmidt(a)).or_else(|e| violation(format!("sampling against {:?} failed: {}", a, e)))
}
fn gs2(a: &[S], b: &[S]) -> Result<Vec<S>, Fail> {
    for x in a.iter().chain(b) {
        fp(x.as_bytes());
    }
    guard(|| hooks::gramschmidt::sample_gram_schmidt_twice(a, b))
        .or_else(|e| violation(format!("sampling against {:?} and {:?} failed: {}", a, b, e)))
}
fn c14_orth(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = if rng.gen_range(0, 3) == 0 { rng.gen_range(2, 70) } else { [2usize, 4, 8, 16, 32, 64][rng.gen_range(0, 6)] };
    c14_orth_at(n, rng, obs)
}
/// Lengths one after the other, and the powers of two far beyond.
fn c14_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<usize> = (2..=if obs.thorough { 600 } else { 300 }).collect();
    v.extend((9..=if obs.thorough { 19 } else { 16 }).map(|e| 1usize << e));
    let n = walk(&v);
    c14_orth_at(n, rng, obs)?;
    if n.is_power_of_two() && n >= 4 {
        c14_random_at(n, rng, obs)?;
        c14_support_at(n, rng, obs)?;
    }
    Ok(())
}
fn c14_orth_at(n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let style = if rng.gen_range(0, 4) == 0 { Style::Dense } else { Style::Odd };
    let (a, b, how) = gen_vectors(n, style, rng);
    obs.shape(format!("n={} {}", n, how));
    let r = gs1(&a)?;
    ensure!(r.len() == n, "a sample against {} entries has {} entries", n, r.len());
    ensure!(ip(&r, &a) == S::zero(), "the sample is not orthogonal to {:?}", a);
    let q = gs2(&a, &b)?;
    ensure!(q.len() == n, "a sample against {} entries has {} entries", n, q.len());
    ensure!(ip(&q, &a) == S::zero(), "the second sample is not orthogonal to its first argument; arguments {:?} and {:?}", a, b);
    ensure!(ip(&q, &b) == S::zero(), "the second sample is not orthogonal to its second argument; arguments {:?} and {:?}", a, b);
    obs.seen("orthogonality checked");
    // the public projection
    let o = guard(|| hooks::gramschmidt::orth(&a, &b)).or_else(|e| violation(format!("orth({:?}, {:?}) failed: {}", a, b, e)))?;
    ensure!(ip(&o, &a) == S::zero(), "orth({:?}, {:?}) is not orthogonal to its first argument", a, b);
    // it changes b only along one direction: two projections of vectors that differ by c have
    // differences orthogonal to a as well
    Ok(())
}
fn c14_random(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = [4usize, 8, 16, 32, 64, 128][rng.gen_range(0, 6)];
    c14_random_at(n, rng, obs)
}
fn c14_random_at(n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    let (a, b) = (scs(rng, n), scs(rng, n));
    obs.shape(format!("n={}", n));
    let (r1, r2) = (gs1(&a)?, gs1(&a)?);
    ensure!(r1 != r2, "two samples against the same vector of length {} are equal", n);
    let (q1, q2) = (gs2(&a, &b)?, gs2(&a, &b)?);
    ensure!(q1 != q2, "two samples against the same two vectors of length {} are equal", n);
    for i in support(n) {
        ensure!(r1[i] != r2[i], "entry {} of {} of two samples agrees", i, n);
        ensure!(q1[i] != q2[i], "entry {} of {} of two samples against two vectors agrees", i, n);
    }
    obs.seen("independent samples compared");
    Ok(())
}
/// Samples of different lengths, one after the other in a thread: no value comes back in a later one.
fn c14_sequence(rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    let mut all: std::collections::HashMap<[u8; 32], usize> = Default::default();
    let ns: Vec<usize> = (0..24).map(|_| if rng.gen_range(0, 3) == 0 { rng.gen_range(2, 70) } else { 1 << rng.gen_range(1, 9) }).collect();
    obs.shape(format!("lengths {:?}", ns));
    for (k, n) in ns.iter().enumerate() {
        let zero = vec![S::zero(); *n];
        let r = if k % 2 == 0 { gs1(&zero)? } else { gs2(&zero, &zero)? };
        for (i, v) in r.iter().enumerate() {
            if *v == S::zero() {
                continue;
            }
            if let Some(j) = all.insert(*v.as_bytes(), k) {
                return violation(format!("entry {} of sample {} (of lengths {:?}) was in sample {} already", i, k, ns, j));
            }
        }
    }
    obs.seen("samples of different lengths compared");
    Ok(())
}
/// The raw sample: what is left when the vector it is corrected against has no or one entry.
fn c14_support(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = [2usize, 4, 8, 16, 32, 64, 128, 256][rng.gen_range(0, 8)];
    c14_support_at(n, rng, obs)
}
fn c14_support_at(n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    let mut a = vec![S::zero(); n];
    let e = rng.gen_range(0, n + 1);
    if e < n {
        a[e] = sc_nz(rng);
    }
    obs.shape(format!("n={} unit={}", n, e));
    let (r1, r2) = (gs1(&a)?, gs1(&a)?);
    let mut vals = HashSet::new();
    for i in support(n) {
        if i == e {
            continue;
        }
        ensure!(r1[i] != S::zero(), "entry {} of a sample of length {} is not random: it is zero", i, n);
        ensure!(r1[i] != r2[i], "entry {} of two samples of length {} agrees", i, n);
        for v in [r1[i], -r1[i], r2[i], -r2[i]].iter() {
            ensure!(vals.insert(*v.as_bytes()), "entries of samples of length {} repeat (entry {})", n, i);
            ensure!(v.as_bytes()[17..].iter().any(|x| *x != 0), "entry {} of a sample of length {} is small: {:?}", i, n, v);
        }
    }
    let q = gs2(&vec![S::zero(); n], &a)?;
    for i in support(n) {
        ensure!(i == e || q[i] != S::zero(), "entry {} of a sample of length {} against two vectors is zero", i, n);
    }
    obs.seen("support checked");
    Ok(())
}

// ------------------------------------------------------------ C16

fn c16_step(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let (st, wit) = match gen_any(kind, 16, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    c16_at(st, wit, rng, obs)
}
fn sized(rng: &mut Rng, obs: &Obs) -> Option<(Stmt, Wit)> {
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    gen_sized(walk(&size_list(obs.thorough)), style, rng).ok()
}
fn c16_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    match sized(rng, obs) {
        Some((st, wit)) => c16_at(st, wit, rng, obs),
        None => Ok(()),
    }
}
fn c16_at(st: Stmt, wit: Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let before = log(&ctx.tr());
    let mut tp = ctx.tr();
    let p = match prove(&st, &wit, &mut tp) {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    let mut tv = ctx.tr();
    match verify(&st, &p, &mut tv) {
        Ok(true) => {}
        _ => {
            obs.count("not accepted", 1);
            return Ok(());
        }
    }
    let (lp, lv) = (log(&tp), log(&tv));
    ensure!(lp.len() >= before.len() && lp[..before.len()] == before[..], "{}: the prover replaced the context it was given", st.desc());
    ensure!(lv.len() >= before.len() && lv[..before.len()] == before[..], "{}: the verifier replaced the context it was given", st.desc());
    ensure!(lp.len() == lv.len(), "{}: the prover recorded {} transcript events, the verifier {}", st.desc(), lp.len(), lv.len());
    for i in 0..lp.len() {
        ensure!(lp[i] == lv[i], "{}: transcript event {} differs: prover {} verifier {}", st.desc(), i, ev(&lp[i]), ev(&lv[i]));
    }
    obs.count("transcript events compared", lp.len() as u64);
    let (a, b) = (refimpl::chal(&mut tp, b"next"), refimpl::chal(&mut tv, b"next"));
    ensure!(a == b, "{}: prover and verifier draw different next challenges", st.desc());
    obs.seen("sessions compared");
    Ok(())
}
pub fn ev(e: &VpEvent) -> String {
    match e {
        VpEvent::Append(l, b) => format!("append {:?} ({} bytes)", String::from_utf8_lossy(l), b.len()),
        VpEvent::Challenge(l, b) => format!("challenge {:?} ({} bytes)", String::from_utf8_lossy(l), b.len()),
    }
}
fn c16_chain(rng: &mut Rng, obs: &mut Obs) -> Res {
    let k = rng.gen_range(2, 5);
    let mut items = Vec::new();
    for _ in 0..k {
        let kind = KINDS[rng.gen_range(0, KINDS.len())];
        match gen_any(kind, 16, Style::Dense, true, rng) {
            Ok(x) => items.push(x),
            Err(_) => return Ok(()),
        }
    }
    let ctx = Ctx::gen(rng);
    let mut tp = ctx.tr();
    let mut proofs = Vec::new();
    for (st, w) in items.iter() {
        match prove(st, w, &mut tp) {
            Ok(p) => proofs.push(p),
            Err(_) => return Ok(()),
        }
    }
    let names: Vec<_> = items.iter().map(|x| x.0.kind()).collect();
    obs.shape(format!("{:?}", names));
    let mut tv = ctx.tr();
    for i in 0..k {
        match verify(&items[i].0, &proofs[i], &mut tv) {
            Ok(true) => {}
            r => return violation(format!("proof {} of the sequence {:?} was not accepted in sequence: {:?}", i, names, r)),
        }
    }
    obs.seen("sequences verified");
    ensure!(
        refimpl::chal(&mut tp, b"next") == refimpl::chal(&mut tv, b"next"),
        "after the sequence {:?} prover and verifier draw different challenges", names
    );
    // another order: exchange two adjacent proofs
    let j = rng.gen_range(0, k - 1);
    let mut tv = ctx.tr();
    for i in 0..j {
        let _ = verify(&items[i].0, &proofs[i], &mut tv);
    }
    match verify(&items[j + 1].0, &proofs[j + 1], &mut tv) {
        Ok(false) => obs.seen("wrong order rejected"),
        Ok(true) => return violation(format!("proof {} of the sequence {:?} was accepted before proof {}", j + 1, names, j)),
        Err(e) => return violation(format!("the verifier failed on an out-of-order proof: {}", e)),
    }
    // a proof of the sequence alone
    if j + 1 > 0 {
        let mut tv = ctx.tr();
        match verify(&items[k - 1].0, &proofs[k - 1], &mut tv) {
            Ok(false) => obs.seen("skipped predecessor rejected"),
            Ok(true) => return violation(format!("the last proof of the sequence {:?} was accepted without its predecessors", names)),
            Err(e) => return violation(format!("the verifier failed on an out-of-order proof: {}", e)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C17

fn bad_encoding(rng: &mut Rng) -> (C, &'static str) {
    loop {
        let mut b = [0u8; 32];
        let how = match rng.gen_range(0, 5) {
            0 => {
                b = [0xff; 32];
                "all ones"
            }
            1 => {
                // p + k: not canonical
                b = [0xff; 32];
                b[0] = 0xed + rng.gen_range(0, 18);
                b[31] = 0x7f;
                "not canonical"
            }
            2 => {
                b[0] = 1;
                "one"
            }
            3 => {
                b.copy_from_slice(pt(rng).compress().as_bytes());
                b[31] |= 0x80;
                "high bit set"
            }
            _ => {
                rng.fill_bytes(&mut b);
                "random bytes"
            }
        };
        let c = CompressedRistretto::from_slice(&b);
        if c.decompress().is_none() {
            return (c, how);
        }
    }
}
fn resize<T: Clone>(v: &mut Vec<T>, filler: T, rng: &mut Rng) -> String {
    let n = v.len();
    let m = match rng.gen_range(0, 9) {
        8 => [8, 16, 31, 32, 33, 63, 128, 255, 256, 257][rng.gen_range(0, 10)],
        0 => 0,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => n + 2,
        4 => 2 * n,
        5 => 64,
        6 => 65 + rng.gen_range(0, 10),
        _ => 200,
    };
    let m = if m == n { n + 1 } else { m };
    if n > 0 && m > n && rng.gen_range(0, 2) == 0 {
        let f = v[n - 1].clone();
        v.resize(m, f);
    } else {
        v.resize(m, filler);
    }
    format!("{} entries instead of {}", m, n)
}
fn malform_ipa(p: &mut IpaP, rng: &mut Rng) -> String {
    let f = match rng.gen_range(0, 3) {
        0 => P::identity().compress(),
        1 => bad_encoding(rng).0,
        _ => pt(rng).compress(),
    };
    match rng.gen_range(0, 5) {
        0 => format!("L: {}", resize(&mut p.l, f, rng)),
        1 => format!("R: {}", resize(&mut p.r, f, rng)),
        2 => {
            let s = resize(&mut p.l, f, rng);
            let n = p.l.len();
            p.r.resize(n, f);
            format!("L and R: {}", s)
        }
        3 => {
            p.l.clear();
            p.r.clear();
            if rng.gen_range(0, 2) == 0 {
                p.l.push(f);
                p.r.push(f);
                p.l.resize(64, f);
                p.r.resize(64, f);
                return "64 rounds".into();
            }
            "no rounds".into()
        }
        _ => {
            // one round moved from one list to the other
            if let Some(x) = p.l.pop() {
                p.r.push(x);
            } else {
                p.r.push(f);
            }
            "a point moved from L to R".into()
        }
    }
}
pub fn malform(p: &Proof, rng: &mut Rng) -> (Proof, String) {
    let mut q = p.clone();
    // invalid encodings of compressed points
    let cs: Vec<PS> = proof_slots(p).into_iter().filter(|s| matches!(slot(&mut q, s), Slot::C(_))).collect();
    if !cs.is_empty() && rng.gen_range(0, 2) == 0 {
        let s = cs[rng.gen_range(0, cs.len())];
        let (c, how) = bad_encoding(rng);
        if let Slot::C(x) = slot(&mut q, &s) {
            *x = c;
        }
        return (q, format!("{:?} is not a point ({})", s, how));
    }
    if rng.gen_range(0, 6) == 0 {
        // arbitrary values everywhere
        for s in proof_slots(p) {
            match slot(&mut q, &s) {
                Slot::C(c) => *c = if rng.gen_range(0, 9) == 0 { bad_encoding(rng).0 } else { pt(rng).compress() },
                Slot::P(x) => *x = pt(rng),
                Slot::S(x) => *x = if rng.gen_range(0, 3) == 0 { S::from_bits([0xff; 32]) } else { sc_mix(rng) },
            }
        }
        return (q, "arbitrary values".into());
    }
    if rng.gen_range(0, 6) == 0 {
        let ss = proof_slots(p);
        let s = ss[rng.gen_range(0, ss.len())];
        let (q, how) = tamper_proof(p, &s, rng);
        return (q, format!("{:?} {}", s, how));
    }
    let what = match &mut q {
        Proof::Ipa(_) | Proof::Alm(_) | Proof::Quad(_) | Proof::Copy { .. } => malform_ipa(ipa_part(&mut q), rng),
        Proof::Lm2 { z, mask } => {
            let x = pt(rng);
            let rows = z.l.get(0).map_or(1, |r| r.len());
            match rng.gen_range(0, if mask.is_some() { 6 } else { 5 }) {
                0 => format!("L rounds: {}", resize(&mut z.l, vec![x; rows], rng)),
                1 => format!("R rounds: {}", resize(&mut z.r, vec![x; rows], rng)),
                2 => {
                    let s = resize(&mut z.l, vec![x; rows], rng);
                    let n = z.l.len();
                    z.r.resize(n, vec![x; rows]);
                    format!("rounds: {}", s)
                }
                3 if !z.l.is_empty() => {
                    let i = rng.gen_range(0, z.l.len());
                    format!("L of round {}: {}", i, resize(&mut z.l[i], x, rng))
                }
                4 if !z.r.is_empty() => {
                    let i = rng.gen_range(0, z.r.len());
                    format!("R of round {}: {}", i, resize(&mut z.r[i], x, rng))
                }
                5 => format!("mask commitment: {}", resize(mask.as_mut().unwrap(), x, rng)),
                _ => {
                    z.l.push(vec![]);
                    "an empty surplus round".into()
                }
            }
        }
        Proof::LmK { z, mask } => {
            let x = pt(rng);
            match rng.gen_range(0, if mask.is_some() { 9 } else { 8 }) {
                0 => {
                    let f = z.u.get(0).cloned().unwrap_or(vec![vec![x; z.t.len()]; 3]);
                    format!("rounds: {}", resize(&mut z.u, f, rng))
                }
                1 if !z.u.is_empty() => {
                    let i = rng.gen_range(0, z.u.len());
                    let f = vec![x; z.t.len()];
                    format!("blocks of round {}: {}", i, resize(&mut z.u[i], f, rng))
                }
                2 if z.u.iter().any(|u| !u.is_empty()) => {
                    let full: Vec<usize> = (0..z.u.len()).filter(|i| !z.u[*i].is_empty()).collect();
                    let i = full[rng.gen_range(0, full.len())];
                    let j = rng.gen_range(0, z.u[i].len());
                    format!("block {} of round {}: {}", j, i, resize(&mut z.u[i][j], x, rng))
                }
                3 => format!("witness: {}", resize(&mut z.w, S::zero(), rng)),
                4 => format!("target: {}", resize(&mut z.t, P::identity(), rng)),
                5 => {
                    let w = z.w.len();
                    format!("rows of the map: {}", resize(&mut z.a, vec![P::identity(); w], rng))
                }
                6 => {
                    let i = rng.gen_range(0, z.a.len());
                    format!("row {} of the map: {}", i, resize(&mut z.a[i], P::identity(), rng))
                }
                7 => {
                    // witness and map widened together by a column that contributes nothing
                    z.w.push(S::zero());
                    for r in z.a.iter_mut() {
                        r.push(P::identity());
                    }
                    "a surplus column".into()
                }
                8 => format!("mask commitment: {}", resize(mask.as_mut().unwrap(), x, rng)),
                _ => {
                    z.u.push(vec![]);
                    "an empty surplus round".into()
                }
            }
        }
    };
    (q, what)
}
fn c17(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let style = if rng.gen_range(0, 3) == 0 { Style::Odd } else { Style::Dense };
    let (st, wit) = match gen_any(kind, 27, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let p = refimpl::prove(&st, &wit, &mut ctx.tr(), rng);
    obs.shape(st.desc());
    for _ in 0..6 {
        let (mut q, mut what) = malform(&p, rng);
        if rng.gen_range(0, 5) == 0 {
            // a second change may find nothing left to change
            if let Ok(r) = guard(|| malform(&q, rng)) {
                q = r.0;
                what = format!("{}; {}", what, r.1);
            }
        }
        if q == p {
            continue;
        }
        // with degenerate values a changed component can be without effect: only failures count
        let strict = style == Style::Dense;
        match verify(&st, &q, &mut ctx.tr()) {
            Ok(false) => obs.seen("malformed rejected"),
            Ok(true) if !strict => obs.count("degenerate accepted", 1),
            Ok(true) => return violation(format!("{}: accepted a malformed proof: {}", st.desc(), what)),
            Err(e) => return violation(format!("{}: the verifier failed on a malformed proof ({}): {}", st.desc(), what, e)),
        }
    }
    Ok(())
}
/// Undecodable relatives of an encoding.
fn undecodable(c: &C, how: u64, rng: &mut Rng) -> C {
    let mut b = *c.as_bytes();
    match how % 5 {
        0 => b[31] |= 0x80,
        1 => {
            // p - s: negative, or p itself
            let mut p = [0xffu8; 32];
            p[0] = 0xed;
            p[31] = 0x7f;
            let mut borrow = 0i32;
            for i in 0..32 {
                let d = p[i] as i32 - b[i] as i32 - borrow;
                borrow = (d < 0) as i32;
                b[i] = d.rem_euclid(256) as u8;
            }
        }
        2 => b[0] |= 1,
        3 => b = [0xff; 32],
        _ => {}
    }
    let c = CompressedRistretto::from_slice(&b);
    if c.decompress().is_none() {
        c
    } else {
        bad_encoding(rng).0
    }
}
/// A prover who sends something undecodable where the verifier might put a point of its own in its place:
/// everything else fits the point that the prover meant, most often the identity.
fn c17_meant(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = [Kind::Alm, Kind::Quad, Kind::Copy, Kind::Ipa][nth() as usize % 4];
    let (mut st, mut wit) = match gen_any(kind, 16, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let zeros = vec![0u8; 1 << 15];
    let way = nth() as usize / 4 % 4;
    let id = P::identity();
    // way 0: as it is; 1: no randomness; 2: no generators; 3: nothing to prove about nothing
    if way == 2 {
        match &mut st {
            Stmt::Ipa { crs, p, .. } => {
                *p = id;
                *crs = Crs { g: vec![id; crs.g.len()], h: vec![id; crs.h.len()], q: id };
            }
            Stmt::Alm { crs, c, .. } => {
                *c = id;
                *crs = Crs { g: vec![id; crs.g.len()], h: vec![id; crs.h.len()], q: id };
            }
            Stmt::Quad { crs, .. } => *crs = Crs { g: vec![id; crs.g.len()], h: vec![id; crs.h.len()], q: id },
            Stmt::Copy { crs, coms, .. } => {
                *crs = Crs { g: vec![id; crs.g.len()], h: vec![id; crs.h.len()], q: id };
                coms.iter_mut().for_each(|c| *c = id);
            }
            _ => {}
        }
    }
    if way == 3 {
        match (&mut st, &mut wit) {
            (Stmt::Ipa { p, t, .. }, Wit::Ab(a, b)) => {
                *p = id;
                *t = S::zero();
                a.iter_mut().chain(b.iter_mut()).for_each(|x| *x = S::zero());
            }
            (Stmt::Alm { c, t, .. }, Wit::Ab(a, b)) => {
                *c = id;
                *t = S::zero();
                a.iter_mut().chain(b.iter_mut()).for_each(|x| *x = S::zero());
            }
            _ => {}
        }
    }
    let prefix: &[u8] = if way == 1 || way == 3 { &zeros } else { &[] };
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{} way {}", st.desc(), way));
    let p = match crate::props_verdict::impostor_with(&st, &st, &wit, &ctx, prefix, &|_| (), rng, obs) {
        Some(p) => p,
        None => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    if let Ok(true) = verify(&st, &p, &mut ctx.tr()) {
        obs.seen("meant proof accepted");
    }
    let slots: Vec<PS> = proof_slots(&p).into_iter().filter(|s| matches!(slot(&mut p.clone(), s), Slot::C(_))).collect();
    for s in crate::props_verdict::pick_kinds(&slots, 6, rng) {
        let how = rng.next_u64();
        let rest = rng.next_u64();
        let mangle = move |q: &mut Proof| {
            if let Slot::C(c) = slot(q, &s) {
                let mut r = <Rng as rand::SeedableRng>::seed_from_u64(rest);
                *c = undecodable(c, how, &mut r);
            }
        };
        let q = match crate::props_verdict::impostor_with(&st, &st, &wit, &ctx, prefix, &mangle, rng, obs) {
            Some(q) => q,
            None => continue,
        };
        obs.count("undecodable parts that everything else fits", 1);
        match verify(&st, &q, &mut ctx.tr()) {
            Ok(false) => obs.seen("malformed rejected"),
            Ok(true) => return violation(format!("{}: accepted although {:?} cannot be decoded ({:?}; way {})", st.desc(), s, how % 5, way)),
            Err(e) => return violation(format!("{}: the verifier failed where {:?} cannot be decoded: {}", st.desc(), s, e)),
        }
    }
    Ok(())
}
/// Proofs with tens of thousands of parts. A verifier that uses its stack for each of them ends the process,
/// which `aftermath` finds.
fn c17_long(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[nth() as usize % KINDS.len()];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let p = refimpl::prove(&st, &wit, &mut ctx.tr(), rng);
    let many = [20_000usize, 50_000][rng.gen_range(0, 2)];
    let x = pt(rng);
    obs.shape(format!("{} with {} parts", st.desc(), many));
    fp(&digest(&p).to_le_bytes());
    let variants = match kind {
        Kind::Ipa | Kind::Alm | Kind::Quad | Kind::Copy => 2,
        Kind::Lm2 => 2,
        Kind::Lm2Zk => 3,
        Kind::LmK => 5,
        Kind::LmKZk => 6,
    };
    for v in 0..variants {
        let mut q = p.clone();
        match &mut q {
            Proof::Lm2 { z, mask } => match v {
                0 => {
                    let m = z.l.first().map_or(1, |r| r.len());
                    z.l.resize(many, vec![x; m]);
                    z.r.resize(many, vec![x; m]);
                }
                1 => {
                    for r in z.l.iter_mut().chain(z.r.iter_mut()) {
                        r.resize(many, x);
                    }
                }
                _ => mask.as_mut().unwrap().resize(many, x),
            },
            Proof::LmK { z, mask } => match v {
                0 => {
                    let f = z.u.first().cloned().unwrap_or_else(|| vec![vec![x]]);
                    z.u.resize(many, f);
                }
                1 => {
                    for r in z.u.iter_mut() {
                        r.resize(many, vec![x]);
                    }
                }
                2 => z.w.resize(many, S::one()),
                3 => z.t.resize(many, x),
                4 => z.a.resize(many, vec![x]),
                _ => mask.as_mut().unwrap().resize(many, x),
            },
            _ => {
                let i = ipa_part(&mut q);
                let c = x.compress();
                i.l.resize(many, c);
                if v == 0 {
                    i.r.resize(many, c);
                }
            }
        }
        match verify(&st, &q, &mut ctx.tr()) {
            Ok(false) => obs.seen("long proofs rejected"),
            Ok(true) => return violation(format!("{}: accepted a proof with {} parts", st.desc(), many)),
            Err(e) => return violation(format!("{}: the verifier failed on a proof with {} parts: {}", st.desc(), many, e)),
        }
    }
    Ok(())
}
/// Surplus parts that were absorbed consistently, so that everything else fits.
fn c17_adaptive(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = [Kind::Lm2Zk, Kind::LmKZk][rng.gen_range(0, 2)];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let (a, t, w) = match (&st, &wit) {
        (Stmt::Lm2 { a, t, .. }, Wit::Lm(w)) | (Stmt::LmK { a, t, .. }, Wit::Lm(w)) => (a, t, w),
        _ => panic!(),
    };
    let r: Vec<S> = (0..w.len()).map(|_| sc(rng)).collect();
    let extra = if rng.gen_range(0, 2) == 0 { vec![P::identity()] } else { pts(rng, 2) };
    let p = refimpl::mask_prove(&st, a, t, w, &r, &extra, &mut ctx.tr());
    match verify(&st, &p, &mut ctx.tr()) {
        Ok(false) => obs.seen("malformed rejected"),
        Ok(true) => return violation(format!("{}: accepted a proof whose mask commitment has surplus entries", st.desc())),
        Err(e) => return violation(format!("{}: the verifier failed on a surplus mask commitment: {}", st.desc(), e)),
    }
    Ok(())
}

// ------------------------------------------------------------ C18

/// Everything a child process does while its output is captured. Returns the number of calls.
pub fn c18_child(seed: u64, idx: u64) -> u64 {
    use rand::SeedableRng;
    let mut rng = Rng::seed_from_u64(case_seed(seed, "C18", "child", idx));
    let rng = &mut rng;
    let mut calls = 0;
    // every other child has every variable set that anything asks for
    if idx % 2 == 1 {
        crate::fake::enter(crate::fake::World { env: Some(["1", "true", "debug"][(idx / 2 % 3) as usize]), ..crate::fake::REAL });
    }
    for _ in 0..16 {
        for kind in KINDS.iter() {
            let style = if rng.gen_range(0, 2) == 0 { Style::Odd } else { Style::Dense };
            let max = [8usize, 16, 32][rng.gen_range(0, 3)];
            let (st, wit) = match gen_any(*kind, max, style, false, rng) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let ctx = Ctx::gen(rng);
            let p = match prove(&st, &wit, &mut ctx.tr()) {
                Ok(p) => p,
                Err(_) => continue,
            };
            calls += 1;
            let mut bad = vec![p.clone()];
            let ss = proof_slots(&p);
            for s in pick(&ss, 3, rng) {
                bad.push(tamper_proof(&p, &s, rng).0);
            }
            for _ in 0..3 {
                bad.push(malform(&p, rng).0);
            }
            for q in bad {
                if verify(&st, &q, &mut ctx.tr()).is_ok() {
                    calls += 1;
                }
            }
            for s in pick(&stmt_slots(&st), 3, rng) {
                let (st2, _) = tamper_stmt(&st, &s, rng);
                if verify(&st2, &p, &mut ctx.tr()).is_ok() {
                    calls += 1;
                }
            }
        }
        // more equations than generators
        let (st, wit) = gen_quad(4, 7, Style::Odd, rng);
        let ctx = Ctx::gen(rng);
        if let Ok(p) = prove(&st, &wit, &mut ctx.tr()) {
            let _ = verify(&st, &p, &mut ctx.tr());
            calls += 2;
        }
    }
    // large ones, in every direction: children take the next ones of a fixed list each
    let l = size_list(false);
    let large: Vec<Size> = l.iter().filter(|z| z.n.max(z.m).max(z.k) >= 33).cloned().collect();
    for i in 0..6u64 {
        let z = large[((idx * 6 + i) % large.len() as u64) as usize];
        if let Ok((st, wit)) = gen_sized(z, Style::Odd, rng) {
            let ctx = Ctx::gen(rng);
            if let Ok(p) = prove(&st, &wit, &mut ctx.tr()) {
                let _ = verify(&st, &p, &mut ctx.tr());
                let ss = proof_slots(&p);
                let _ = verify(&st, &tamper_proof(&p, &ss[rng.gen_range(0, ss.len())], rng).0, &mut ctx.tr());
                calls += 3;
            }
        }
    }
    calls
}
/// Thousands of calls of each kind in one child: what speaks up only now and then.
pub fn c18_long(seed: u64, rounds: u64) -> u64 {
    use rand::SeedableRng;
    let mut calls = 0;
    for kind in KINDS.iter() {
        let mut rng = Rng::seed_from_u64(case_seed(seed, "C18", &format!("{:?}", kind), 0));
        let (st, wit) = match (0..50).filter_map(|_| gen_any(*kind, 4, Style::Dense, true, &mut rng).ok()).next() {
            Some(x) => x,
            None => continue,
        };
        let ctx = Ctx::gen(&mut rng);
        let p = match prove(&st, &wit, &mut ctx.tr()) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let bad = tamper_proof(&p, &proof_slots(&p)[0], &mut rng).0;
        for _ in 0..rounds {
            let _ = prove(&st, &wit, &mut ctx.tr());
            for _ in 0..2 {
                let _ = verify(&st, &p, &mut ctx.tr());
                let _ = verify(&st, &bad, &mut ctx.tr());
            }
            calls += 5;
        }
    }
    calls
}
fn c18_many(rng: &mut Rng, obs: &mut Obs) -> Res {
    let rounds = if obs.thorough { 6000 } else { 300 };
    c18_in(rng, &["c18long".into(), rounds.to_string()], 16 * rounds, obs)
}
fn c18(rng: &mut Rng, obs: &mut Obs) -> Res {
    c18_in(rng, &["c18child".into(), nth().to_string()], 0, obs)
}
fn c18_in(rng: &mut Rng, how: &[String], calls: u64, obs: &mut Obs) -> Res {
    let seed = rng.next_u64() >> 1;
    let exe = std::env::current_exe().unwrap();
    // the child reports its call count through its exit code in units of 16
    let out = match std::process::Command::new(exe).arg(&how[0]).arg(seed.to_string()).arg(&how[1]).stdin(std::process::Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return Err(Fail::Inconclusive(format!("cannot start the child: {}", e))),
    };
    let code = out.status.code().unwrap_or(-1);
    obs.shape(format!("child seed {}", seed));
    for (name, b) in [("standard output", &out.stdout), ("standard error", &out.stderr)].iter() {
        if !b.is_empty() {
            let s: String = String::from_utf8_lossy(b).chars().take(300).collect();
            return violation(format!("{} bytes on {} while proving and verifying: {}", b.len(), name, s));
        }
    }
    if code <= 0 || code > 255 {
        return Err(Fail::Inconclusive(format!("the child ended with {}", code)));
    }
    obs.seen("children without output");
    if calls > 0 {
        obs.seen("children with thousands of calls");
    }
    obs.count("captured calls (at least)", calls.max(8 * code as u64));
    Ok(())
}

// ------------------------------------------------------------ C19

fn gp(s: &S) -> P {
    s * &RISTRETTO_BASEPOINT_TABLE
}
fn rmat(m: usize, n: usize, rng: &mut Rng) -> Mat {
    (0..m).map(|_| (0..n).map(|_| sc_mix(rng)).collect()).collect()
}
fn lift(m: &Mat) -> PMat {
    m.iter().map(|r| r.iter().map(gp).collect()).collect()
}
fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).or_else(|e| violation(format!("{} failed: {}", what, e)))
}
fn refused<T>(what: &str, f: impl FnOnce() -> T, obs: &mut Obs) -> Res {
    match guard(f) {
        Err(_) => {
            obs.seen("refusals");
            Ok(())
        }
        Ok(_) => violation(format!("{} was not refused", what)),
    }
}
fn shp(rng: &mut Rng) -> (usize, usize) {
    match rng.gen_range(0, 4) {
        0 => (1, rng.gen_range(1, 9)),
        1 => (rng.gen_range(1, 9), 1),
        _ => (rng.gen_range(1, 9), rng.gen_range(1, 9)),
    }
}
fn c19_scalar(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (m, n) = shp(rng);
    c19_scalar_at(m, n, rng, obs)
}
fn c19_scalar_at(m: usize, n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    obs.shape(format!("scalars {}x{}", m, n));
    let (a, b, x) = (rmat(m, n, rng), rmat(m, n, rng), sc_mix(rng));
    for r in a.iter().flatten() {
        fp(r.as_bytes());
    }
    let v: Vec<S> = (0..n).map(|_| sc_mix(rng)).collect();
    let sm = call("matrix_scalar_mul", || mx::matrix_scalar_mul(&a, &x))?;
    let mvv = call("matrix_vector_mul", || mx::matrix_vector_mul(&a, &v))?;
    let add = call("matrix_matrix_add", || mx::matrix_matrix_add(&a, &b))?;
    let tr = call("matrix_transpose", || mx::matrix_transpose(&a))?;
    let ra = call("row_row_add", || mx::row_row_add(&a[0], &b[0]))?;
    let rs = call("row_row_sub", || mx::row_row_sub(&a[0], &b[0]))?;
    let inp = call("inner_product", || hooks::math_utils::inner_product(&a[m - 1], &v))?;
    ensure!(inp == ip(&a[m - 1], &v), "inner_product differs ({} entries)", n);
    ensure!(sm.len() == m && add.len() == m && tr.len() == n && mvv.len() == m && ra.len() == n && rs.len() == n, "a result has the wrong shape ({}x{})", m, n);
    for i in 0..m {
        ensure!(sm[i].len() == n && add[i].len() == n, "a result has the wrong shape ({}x{})", m, n);
        let mut acc = S::zero();
        for j in 0..n {
            ensure!(sm[i][j] == a[i][j] * x, "matrix_scalar_mul differs at ({},{}) of {}x{}", i, j, m, n);
            ensure!(add[i][j] == a[i][j] + b[i][j], "matrix_matrix_add differs at ({},{}) of {}x{}", i, j, m, n);
            ensure!(tr[j].len() == m && tr[j][i] == a[i][j], "matrix_transpose differs at ({},{}) of {}x{}", i, j, m, n);
            acc += a[i][j] * v[j];
        }
        ensure!(mvv[i] == acc, "matrix_vector_mul differs in row {} of {}x{}", i, m, n);
    }
    for j in 0..n {
        ensure!(ra[j] == a[0][j] + b[0][j] && rs[j] == a[0][j] - b[0][j], "row_row_add or row_row_sub differs at {} of {}", j, n);
    }
    obs.seen("operations compared");
    Ok(())
}
fn c19_point(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (m, n) = shp(rng);
    c19_point_at(m.min(5), n.min(6), rng, obs)
}
fn c19_point_at(m: usize, n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    obs.shape(format!("points {}x{}", m, n));
    let (a, b, x) = (rmat(m, n, rng), rmat(m, n, rng), sc_mix(rng));
    for r in a.iter().flatten() {
        fp(r.as_bytes());
    }
    let (pa, pb) = (lift(&a), lift(&b));
    let v: Vec<S> = (0..n).map(|_| sc_mix(rng)).collect();
    let eq = |p: &PMat, s: &Mat| -> bool { *p == lift(s) };
    let sm = call("matrixpoint_scalar_mul", || mx::matrixpoint_scalar_mul(&pa, &x))?;
    ensure!(eq(&sm, &a.iter().map(|r| r.iter().map(|e| e * x).collect()).collect()), "matrixpoint_scalar_mul differs ({}x{})", m, n);
    let mvv = call("matrixpoint_vector_mul", || mx::matrixpoint_vector_mul(&pa, &v))?;
    ensure!(mvv == mv(&a, &v).iter().map(gp).collect::<Vec<_>>(), "matrixpoint_vector_mul differs ({}x{})", m, n);
    let add = call("matrixpoint_matrix_add", || mx::matrixpoint_matrix_add(&pa, &pb))?;
    ensure!(eq(&add, &(0..m).map(|i| (0..n).map(|j| a[i][j] + b[i][j]).collect()).collect()), "matrixpoint_matrix_add differs ({}x{})", m, n);
    let tr = call("matrixpoint_transpose", || mx::matrixpoint_transpose(&pa))?;
    ensure!(eq(&tr, &refimpl::transpose(&a)), "matrixpoint_transpose differs ({}x{})", m, n);
    let vs = call("vectorpoint_scalar_mul", || mx::vectorpoint_scalar_mul(&pa[0], &x))?;
    ensure!(vs == a[0].iter().map(|e| gp(&(e * x))).collect::<Vec<_>>(), "vectorpoint_scalar_mul differs ({} entries)", n);
    let ra = call("rowpoint_rowpoint_add", || mx::rowpoint_rowpoint_add(&pa[0], &pb[0]))?;
    ensure!(ra == (0..n).map(|j| gp(&(a[0][j] + b[0][j]))).collect::<Vec<_>>(), "rowpoint_rowpoint_add differs ({} entries)", n);
    obs.seen("operations compared");
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Trop(i64);
impl std::ops::Add for Trop {
    type Output = Trop;
    fn add(self, o: Trop) -> Trop {
        Trop(self.0.min(o.0))
    }
}
impl std::ops::Mul for Trop {
    type Output = Trop;
    fn mul(self, o: Trop) -> Trop {
        Trop(self.0 + o.0)
    }
}
/// Numbers whose product depends on the order: (a, b) stands for x -> a x + b.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Pair(i64, i64);
impl std::ops::Add for Pair {
    type Output = Pair;
    fn add(self, o: Pair) -> Pair {
        Pair(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Mul for Pair {
    type Output = Pair;
    fn mul(self, o: Pair) -> Pair {
        Pair(self.0 * o.0, self.0 * o.1 + self.1)
    }
}
fn c19_general(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (m, n) = shp(rng);
    c19_general_at(m, n, rng, obs)
}
fn c19_general_at(m: usize, n: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    obs.shape(format!("integers {}x{}", m, n));
    let gi = |rng: &mut Rng| rng.gen_range(-1000i64, 1000);
    let a: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| gi(rng)).collect()).collect();
    let b: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| gi(rng)).collect()).collect();
    let v: Vec<i64> = (0..n).map(|_| gi(rng)).collect();
    let x = gi(rng);
    fp(format!("{:?}{:?}", a, v).as_bytes());
    let zero = gi(rng); // the caller's "identity" is the value the sum starts from
    let z0 = if rng.gen_range(0, 2) == 0 { 0 } else { zero };
    let mvv = call("matrix_vector_mul_general", || mx::matrix_vector_mul_general(&a, &v, z0))?;
    ensure!(mvv == a.iter().map(|r| z0 + r.iter().zip(&v).map(|(p, q)| p * q).sum::<i64>()).collect::<Vec<_>>(), "matrix_vector_mul_general differs ({}x{})", m, n);
    let sm = call("matrix_scalar_mul_general", || mx::matrix_scalar_mul_general(&a, &x))?;
    ensure!(sm == a.iter().map(|r| r.iter().map(|e| e * x).collect::<Vec<_>>()).collect::<Vec<_>>(), "matrix_scalar_mul_general differs ({}x{})", m, n);
    let vs = call("vector_scalar_mul_general", || mx::vector_scalar_mul_general(&v, &x))?;
    ensure!(vs == v.iter().map(|e| e * x).collect::<Vec<_>>(), "vector_scalar_mul_general differs");
    let ra = call("row_row_add_general", || mx::row_row_add_general(&a[0], &b[0]))?;
    ensure!(ra == (0..n).map(|j| a[0][j] + b[0][j]).collect::<Vec<_>>(), "row_row_add_general differs");
    let add = call("matrix_matrix_add_general", || mx::matrix_matrix_add_general(&a, &b))?;
    ensure!(add == (0..m).map(|i| (0..n).map(|j| a[i][j] + b[i][j]).collect::<Vec<_>>()).collect::<Vec<_>>(), "matrix_matrix_add_general differs ({}x{})", m, n);
    // numbers whose sum is the smaller one and whose product is the sum: nothing can be subtracted, zero is infinite
    let wrap = |m: &[Vec<i64>]| -> Vec<Vec<Trop>> { m.iter().map(|r| r.iter().map(|x| Trop(*x)).collect()).collect() };
    let (ta, tb) = (wrap(&a), wrap(&b));
    let tv: Vec<Trop> = v.iter().map(|x| Trop(*x)).collect();
    let far = Trop(1 << 40);
    let start = if rng.gen_range(0, 2) == 0 { far } else { Trop(gi(rng)) };
    let mvv = call("matrix_vector_mul_general", || mx::matrix_vector_mul_general(&ta, &tv, start))?;
    ensure!(
        mvv == a.iter().map(|r| Trop(r.iter().zip(&v).map(|(p, q)| p + q).min().unwrap().min(start.0))).collect::<Vec<_>>(),
        "matrix_vector_mul_general of other numbers differs ({}x{})", m, n
    );
    // numbers of which neither factor may take the other's place
    let pair = |x: i64, y: i64| Pair(x, y);
    let pa: Vec<Vec<Pair>> = a.iter().zip(&b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| pair(*x, *y)).collect()).collect();
    let pv: Vec<Pair> = v.iter().map(|y| pair(gi(rng), *y)).collect();
    let got = call("matrix_vector_mul_general", || mx::matrix_vector_mul_general(&pa, &pv, pair(0, 0)))?;
    let want: Vec<Pair> = pa.iter().map(|r| r.iter().zip(&pv).fold(pair(0, 0), |s, (p, q)| pair(s.0 + p.0 * q.0, s.1 + p.0 * q.1 + p.1))).collect();
    ensure!(got == want, "matrix_vector_mul_general of numbers that do not commute differs ({}x{})", m, n);
    let add = call("matrix_matrix_add_general", || mx::matrix_matrix_add_general(&ta, &tb))?;
    ensure!(add == (0..m).map(|i| (0..n).map(|j| Trop(a[i][j].min(b[i][j]))).collect::<Vec<_>>()).collect::<Vec<_>>(), "matrix_matrix_add_general of other numbers differs");
    let sm = call("matrix_scalar_mul_general", || mx::matrix_scalar_mul_general(&ta, &Trop(x)))?;
    ensure!(sm == a.iter().map(|r| r.iter().map(|e| Trop(e + x)).collect::<Vec<_>>()).collect::<Vec<_>>(), "matrix_scalar_mul_general of other numbers differs");
    let len = rng.gen_range(1, 40);
    let pw = call("vandemonde_vector_general", || mx::vandemonde_vector_general(Trop(x), len, Trop(0)))?;
    ensure!(pw == (0..len as i64).map(|i| Trop(i * x)).collect::<Vec<_>>(), "vandemonde_vector_general of other numbers differs ({} entries)", len);
    obs.seen("operations compared");
    let (k, c, len) = (rng.gen_range(1, 7), rng.gen_range(1, 7), rng.gen_range(1, 20));
    c19_split(m, k, c, rng)?;
    c19_powers(len, rng)?;
    c19_matrices(m, n)
}
/// matrix_split: `k` chunks of `c` columns.
fn c19_split(m: usize, k: usize, c: usize, rng: &mut Rng) -> Res {
    let gi = |rng: &mut Rng| rng.gen_range(-1000i64, 1000);
    let w: Vec<Vec<i64>> = (0..m).map(|_| (0..k * c).map(|_| gi(rng)).collect()).collect();
    let sp = call("matrix_split", || mx::matrix_split(&w, c))?;
    ensure!(sp.len() == k, "matrix_split of {} columns in chunks of {} gives {} parts", k * c, c, sp.len());
    for (q, part) in sp.iter().enumerate() {
        ensure!(part.len() == m, "matrix_split loses rows");
        for i in 0..m {
            ensure!(part[i][..] == w[i][q * c..(q + 1) * c], "matrix_split: part {} row {} differs", q, i);
        }
    }
    Ok(())
}
fn c19_powers(len: usize, rng: &mut Rng) -> Res {
    let xi = if len < 38 { rng.gen_range(-3i64, 4) } else { [0, 1, -1][rng.gen_range(0, 3)] };
    let pg = call("vandemonde_vector_general", || mx::vandemonde_vector_general(xi, len, 1))?;
    let mut e = 1i64;
    ensure!(pg.len() == len, "vandemonde_vector_general has {} entries, asked for {}", pg.len(), len);
    for (i, y) in pg.iter().enumerate() {
        ensure!(*y == e, "vandemonde_vector_general({}, {}) differs at {}", xi, len, i);
        e *= xi;
    }
    let xs = sc_mix(rng);
    let pv = call("vandemonde_vector", || mx::vandemonde_vector(xs, len))?;
    let pc = call("vandemonde_challenge", || hooks::math_utils::vandemonde_challenge(xs, len))?;
    ensure!(pv.len() == len && pc.len() == len, "a power vector has the wrong length ({})", len);
    let mut e = S::one();
    for i in 0..len {
        ensure!(pv[i] == e, "vandemonde_vector differs at {}", i);
        e *= xs;
        ensure!(pc[i] == e, "vandemonde_challenge differs at {}", i);
    }
    Ok(())
}
fn c19_matrices(m: usize, n: usize) -> Res {
    let vm = call("vandemonde_matrix", || mx::vandemonde_matrix(m, n))?;
    ensure!(vm.len() == m && vm.iter().all(|r| r.len() == n), "vandemonde_matrix({}, {}) has the wrong shape", m, n);
    for (i, r) in vm.iter().enumerate() {
        ensure!(r[0] == S::one(), "vandemonde_matrix: row {} does not start with one", i);
        for j in 2..n {
            ensure!(r[j] == r[j - 1] * r[1], "vandemonde_matrix: row {} entry {} is no power", i, j);
        }
        for k in 0..i {
            ensure!(n < 2 || vm[k][1] != r[1], "vandemonde_matrix: rows {} and {} agree", k, i);
        }
    }
    let rm = call("rand_matrix", || mx::rand_matrix(m, n))?;
    ensure!(rm.len() == m && rm.iter().all(|r| r.len() == n), "rand_matrix({}, {}) has the wrong shape", m, n);
    let set: HashSet<[u8; 32]> = rm.iter().flatten().map(|p| *p.compress().as_bytes()).collect();
    ensure!(set.len() == m * n, "rand_matrix repeats entries");
    Ok(())
}
/// Dimensions beyond 16 bits.
fn c19_huge(rng: &mut Rng, obs: &mut Obs) -> Res {
    let big = 65_530 + rng.gen_range(10, 3_000);
    match nth() % 3 {
        0 => {
            c19_powers(big, rng)?;
            c19_batch_at(1, 1, big, rng, obs)?;
        }
        1 => {
            c19_scalar_at(1, big, rng, obs)?;
            c19_scalar_at(big, 1, rng, obs)?;
        }
        _ => {
            c19_split(2, big, 1, rng)?;
            c19_split(2, 1, big, rng)?;
            let a: Vec<Vec<i64>> = (0..big as i64).map(|i| vec![i, 1]).collect();
            let v = call("matrix_vector_mul_general", || mx::matrix_vector_mul_general(&a, &[1, 2], 3))?;
            ensure!(v.len() == big && v.iter().enumerate().all(|(i, x)| *x == i as i64 + 5), "matrix_vector_mul_general differs ({} rows)", big);
            let a = vec![vec![2i64; big]; 2];
            let v = call("matrix_vector_mul_general", || mx::matrix_vector_mul_general(&a, &a[0], 3))?;
            ensure!(v == vec![3 + 4 * big as i64; 2], "matrix_vector_mul_general differs ({} columns)", big);
        }
    }
    obs.count("very large operations", 1);
    Ok(())
}
/// Sizes one after the other, beyond any that a fixed-width counter or a block size could cover.
fn c19_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let i = nth() as usize;
    let top = if obs.thorough { 1100 } else { 560 };
    let len = 1 + i % top;
    c19_powers(len, rng)?;
    let (a, b): (Vec<S>, Vec<S>) = (0..len).map(|_| (sc_mix(rng), sc_mix(rng))).unzip();
    obs.shape(format!("length {}", len));
    let inp = call("inner_product", || hooks::math_utils::inner_product(&a, &b))?;
    ensure!(inp == ip(&a, &b), "inner_product differs ({} entries)", len);
    let (m, n) = match i % 4 {
        0 => (1 + (i / 4) % 300, 1 + i % 3),
        1 => (1 + i % 3, 1 + (i / 4) % 300),
        2 => (1 + (i / 4) % 40, 1 + (i / 4 + 1) % 37),
        _ => (1 + (i / 4) % 24, 1 + (i / 4) % 24),
    };
    c19_scalar_at(m, n, rng, obs)?;
    c19_batch_at(1 + i % 3, 1 + i % 2, 1 + (i / 2) % 300, rng, obs)?;
    c19_split(1 + i % 3, 1 + (i / 3) % 70, 1 + (i / 5) % 33, rng)?;
    if i % 8 == 0 {
        c19_general_at(m, n, rng, obs)?;
        let (pm, pn) = (1 + (i / 8) % 18, 1 + (i / 8 + i / 144) % 21);
        c19_point_at(pm, pn, rng, obs)?;
    }
    if i % 64 == 5 {
        c19_point_at(1, 1 + i, rng, obs)?;
        c19_point_at(1 + i, 1, rng, obs)?;
    }
    Ok(())
}
fn c19_batch(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (m, n) = shp(rng);
    let k = rng.gen_range(1, 12);
    c19_batch_at(m, n, k, rng, obs)
}
fn c19_batch_at(m: usize, n: usize, k: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    obs.shape(format!("batch of {} {}x{}", k, m, n));
    let ms: Vec<Mat> = (0..k).map(|_| rmat(m, n, rng)).collect();
    let extra = if rng.gen_range(0, 2) == 0 { 0 } else { rng.gen_range(1, 5) };
    let ch: Vec<S> = (0..k + extra).map(|_| sc_mix(rng)).collect();
    for c in ch.iter() {
        fp(c.as_bytes());
    }
    let mut b = if rng.gen_range(0, 2) == 0 {
        mx::BlockMatrix::with(ms[0].clone())
    } else {
        let mut b = mx::BlockMatrix::new();
        b.push(ms[0].clone());
        b
    };
    for x in ms.iter().skip(1) {
        b.push(x.clone());
    }
    ensure!(b.block == ms, "BlockMatrix does not hold the matrices in order");
    let got = call("block_matrix_batch", || b.block_matrix_batch(&ch))?;
    ensure!(got.len() == m, "a batch has the wrong shape");
    for i in 0..m {
        ensure!(got[i].len() == n, "a batch has the wrong shape");
        for j in 0..n {
            let mut e = S::zero();
            for q in 0..k {
                e += ch[q] * ms[q][i][j];
            }
            ensure!(got[i][j] == e, "block_matrix_batch of {} matrices {}x{} differs at ({},{})", k, m, n, i, j);
        }
    }
    obs.seen("operations compared");
    Ok(())
}
fn c19_refuse(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (m, n) = shp(rng);
    let d = if rng.gen_range(0, 40) == 0 { 256 } else { rng.gen_range(1, 4) };
    let (a, rows, cols) = (rmat(m, n, rng), rmat(m + d, n, rng), rmat(m, n + d, rng));
    let mut ragged = a.clone();
    let ri = rng.gen_range(0, m);
    ragged[ri].push(S::one());
    obs.shape(format!("{}x{} against {} more", m, n, d));
    for r in a.iter().flatten() {
        fp(r.as_bytes());
    }
    for (x, y) in [(&a, &rows), (&rows, &a), (&a, &cols), (&cols, &a), (&a, &ragged), (&ragged, &a)].iter() {
        refused("matrix_matrix_add of different shapes", || mx::matrix_matrix_add(x, y), obs)?;
        refused("matrix_matrix_add_general of different shapes", || mx::matrix_matrix_add_general(x, y), obs)?;
        refused("a batch of different shapes", || {
            let mut b = mx::BlockMatrix::with((*x).clone());
            b.push((*y).clone());
            b.block_matrix_batch(&[S::one(), S::one()])
        }, obs)?;
    }
    refused("row_row_add of different lengths", || mx::row_row_add(&a[0], &cols[0]), obs)?;
    refused("row_row_add of different lengths", || mx::row_row_add(&cols[0], &a[0]), obs)?;
    refused("row_row_sub of different lengths", || mx::row_row_sub(&a[0], &cols[0]), obs)?;
    refused("row_row_sub of different lengths", || mx::row_row_sub(&cols[0], &a[0]), obs)?;
    refused("row_row_add_general of different lengths", || mx::row_row_add_general(&a[0], &cols[0]), obs)?;
    refused("row_row_add_general of different lengths", || mx::row_row_add_general(&cols[0], &a[0]), obs)?;
    let p = P::identity();
    let pm = |m: usize, n: usize| vec![vec![p; n]; m];
    refused("rowpoint_rowpoint_add of different lengths", || mx::rowpoint_rowpoint_add(&pm(1, n)[0], &pm(1, n + d)[0]), obs)?;
    refused("rowpoint_rowpoint_add of different lengths", || mx::rowpoint_rowpoint_add(&pm(1, n + d)[0], &pm(1, n)[0]), obs)?;
    refused("matrixpoint_matrix_add of different shapes", || mx::matrixpoint_matrix_add(&pm(m, n), &pm(m + d, n)), obs)?;
    refused("matrixpoint_matrix_add of different shapes", || mx::matrixpoint_matrix_add(&pm(m + d, n), &pm(m, n)), obs)?;
    refused("matrixpoint_matrix_add of different shapes", || mx::matrixpoint_matrix_add(&pm(m, n), &pm(m, n + d)), obs)?;
    let c = rng.gen_range(2, 7);
    let cc = c * rng.gen_range(0, 4) + rng.gen_range(1, c);
    refused("matrix_split that does not divide the columns", || mx::matrix_split(&vec![vec![1u8; cc]; m], c), obs)?;
    Ok(())
}

// ------------------------------------------------------------ C20

fn masks_of(p: &Proof) -> Vec<[u8; 32]> {
    match p {
        Proof::Alm(a) => vec![*a.cr.as_bytes()],
        Proof::Quad(q) => vec![*q.cp.as_bytes(), *q.cpp.as_bytes(), *q.alm.cr.as_bytes()],
        Proof::Copy { cw, q } => vec![*cw.as_bytes(), *q.cpp.as_bytes(), *q.alm.cr.as_bytes()],
        Proof::Lm2 { mask: Some(m), .. } | Proof::LmK { mask: Some(m), .. } => m.iter().map(|x| *x.compress().as_bytes()).collect(),
        _ => vec![],
    }
}
fn c20(rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    struct Item {
        st: Stmt,
        p: Proof,
        ctx: Ctx,
        expect: bool,
    }
    let mut items: Vec<Item> = Vec::new();
    let mut work: Vec<(Stmt, Wit, Ctx)> = Vec::new();
    for _ in 0..rng.gen_range(2, 5) {
        let kind = KINDS[rng.gen_range(0, KINDS.len())];
        let (st, wit) = match gen_any(kind, 8, Style::Dense, true, rng) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let ctx = Ctx::gen(rng);
        let p = match baseline(&st, &wit, &ctx, rng, obs) {
            Some(p) => p,
            None => continue,
        };
        let ps = proof_slots(&p);
        let ss = stmt_slots(&st);
        let s = ps[rng.gen_range(0, ps.len())];
        let bad = tamper_proof(&p, &s, rng).0;
        let s = ss[rng.gen_range(0, ss.len())];
        let bst = tamper_stmt(&st, &s, rng).0;
        let octx = ctx.other(rng).0;
        let mut add = |st: &Stmt, p: &Proof, ctx: &Ctx| {
            if let Ok(v) = verify(st, p, &mut ctx.tr()) {
                items.push(Item { st: st.clone(), p: p.clone(), ctx: ctx.clone(), expect: v });
            }
        };
        add(&st, &p, &ctx);
        add(&st, &bad, &ctx);
        add(&bst, &p, &ctx);
        add(&st, &p, &octx);
        work.push((st, wit, ctx));
    }
    if items.is_empty() || work.is_empty() {
        return Ok(());
    }
    obs.shape(work.iter().map(|w| w.0.desc()).collect::<Vec<_>>().join(" | "));
    // repeated and permuted, one thread; the same proof object each time
    let objs: Vec<Native> = items.iter().map(|i| native(&i.p)).collect();
    for _ in 0..3 * items.len() {
        let i = rng.gen_range(0, items.len());
        let it = &items[i];
        let v = guard(|| objs[i].verify(&it.st, &mut it.ctx.tr()));
        ensure!(v == Ok(it.expect), "{}: verdict {:?} after other verifications, {} before", it.st.desc(), v, it.expect);
        ensure!(objs[i].parts() == it.p, "{}: verification changed the proof", it.st.desc());
        obs.seen("repeated verdicts compared");
    }
    // calls that are refused, in this and in another thread, leave no trace either
    for (st, wit, ctx) in work.iter() {
        if !refused_call(st, wit, ctx, rng) {
            obs.seen("refused calls");
        }
        let (mut st2, mut wit2) = (st.clone(), wit.clone());
        let seed = rng.next_u64();
        misuse(&mut st2, &mut wit2, seed);
        let c2 = ctx.clone();
        let _ = std::thread::spawn(move || {
            let _ = prove(&st2, &wit2, &mut c2.tr());
        })
        .join();
    }
    for (i, it) in items.iter().enumerate() {
        let v = guard(|| objs[i].verify(&it.st, &mut it.ctx.tr()));
        ensure!(v == Ok(it.expect), "{}: verdict {:?} after refused calls, {} before", it.st.desc(), v, it.expect);
    }
    for (st, wit, ctx) in work.iter() {
        match prove(st, wit, &mut ctx.tr()) {
            Ok(p) => ensure!(verify(st, &p, &mut ctx.tr()) == Ok(true), "{}: an honest proof is rejected after refused calls", st.desc()),
            Err(e) => return violation(format!("{}: the prover fails after refused calls: {}", st.desc(), e)),
        }
        obs.seen("sessions after refused calls");
    }
    // concurrent sessions
    let threads = 4;
    let found: Mutex<Option<String>> = Mutex::new(None);
    let masks: Mutex<Vec<[u8; 32]>> = Mutex::new(Vec::new());
    let cnt = std::sync::atomic::AtomicU64::new(0);
    let barrier = std::sync::Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next_u64()).collect();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (items, work, found, masks, cnt, barrier, seed) = (&items, &work, &found, &masks, &cnt, &barrier, seeds[t]);
            sc.spawn(move || {
                use rand::SeedableRng;
                let mut rng = Rng::seed_from_u64(seed);
                barrier.wait();
                for _ in 0..2 * items.len() {
                    let it = &items[rng.gen_range(0, items.len())];
                    let v = verify(&it.st, &it.p, &mut it.ctx.tr());
                    cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if v != Ok(it.expect) {
                        *found.lock().unwrap() = Some(format!("{}: verdict {:?} under concurrency, {} alone", it.st.desc(), v, it.expect));
                    }
                    if rng.gen_range(0, 3) == 0 {
                        let (st, wit, ctx) = &work[rng.gen_range(0, work.len())];
                        match prove(st, wit, &mut ctx.tr()) {
                            Ok(p) => {
                                masks.lock().unwrap().extend(masks_of(&p));
                                let v = verify(st, &p, &mut ctx.tr());
                                if v != Ok(true) {
                                    *found.lock().unwrap() = Some(format!("{}: a proof made under concurrency gives {:?}", st.desc(), v));
                                }
                            }
                            Err(e) => *found.lock().unwrap() = Some(format!("{}: the prover failed under concurrency: {}", st.desc(), e)),
                        }
                    }
                }
            });
        }
    });
    obs.count("concurrent verdicts compared", cnt.load(std::sync::atomic::Ordering::Relaxed));
    if let Some(m) = found.into_inner().unwrap() {
        return violation(m);
    }
    let masks = masks.into_inner().unwrap();
    let set: HashSet<_> = masks.iter().collect();
    ensure!(set.len() == masks.len(), "concurrent proofs share masked components ({} of {} distinct)", set.len(), masks.len());
    obs.count("masked components of concurrent proofs compared", masks.len() as u64);
    Ok(())
}
/// Many verifications of one false and one true proof: verdicts do not depend on how often one asks.
/// A call outside the preconditions: vectors of unequal lengths.
fn misuse(st: &mut Stmt, wit: &mut Wit, seed: u64) {
    let cut = |v: &mut Vec<S>| {
        if seed % 2 == 0 && v.len() > 1 {
            v.pop();
        } else {
            v.push(S::one());
        }
    };
    match wit {
        Wit::Ab(a, b) => cut(if seed % 4 < 2 { a } else { b }),
        Wit::Quad(w) => {
            if seed % 4 < 2 {
                cut(w)
            } else if let Stmt::Quad { gamma, .. } = st {
                let last = gamma.len() - 1;
                gamma[last].pop();
            }
        }
        Wit::Copy { w, openings } => match seed % 3 {
            0 => w[0] += S::one(),
            1 => {
                openings.pop();
            }
            _ => cut(&mut openings[0].0),
        },
        Wit::Lm(w) => {
            cut(w);
            if let Stmt::Lm2 { a, .. } | Stmt::LmK { a, .. } = st {
                let last = a.len() - 1;
                a[last].pop();
            }
        }
    }
}
/// Whether a prover that is called against its preconditions returns, and what a verifier does with such a statement is not judged.
pub fn refused_call(st: &Stmt, wit: &Wit, ctx: &Ctx, rng: &mut Rng) -> bool {
    let (mut st2, mut wit2) = (st.clone(), wit.clone());
    misuse(&mut st2, &mut wit2, rng.next_u64());
    prove(&st2, &wit2, &mut ctx.tr()).is_ok()
}
fn c20_long(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let (st, wit) = match gen_any(kind, 8, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    let p = match baseline(&st, &wit, &ctx, rng, obs) {
        Some(p) => p,
        None => return Ok(()),
    };
    let ps = proof_slots(&p);
    let s = ps[rng.gen_range(0, ps.len())];
    let bad = tamper_proof(&p, &s, rng).0;
    let (vg, vb) = (verify(&st, &p, &mut ctx.tr()), verify(&st, &bad, &mut ctx.tr()));
    obs.shape(format!("{} long", st.desc()));
    for i in 0..if obs.thorough { 600 } else { 150 } {
        let good = rng.gen_range(0, 4) == 0;
        let v = if good { verify(&st, &p, &mut ctx.tr()) } else { verify(&st, &bad, &mut ctx.tr()) };
        ensure!(v == if good { vg.clone() } else { vb.clone() }, "{}: repetition {} changes the verdict to {:?}", st.desc(), i, v);
        obs.seen("repeated verdicts compared");
    }
    Ok(())
}
/// Statements that share most of their parts, one after the other in one thread: what is proved
/// and accepted depends on the statement at hand only, not on those before.
/// What the process could ask the system for (variables, the time, the number of processors) changes nothing.
fn c20_worlds(rng: &mut Rng, obs: &mut Obs) -> Res {
    use crate::fake;
    rand::rngs::vp::uninstall();
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let (st, wit) = match gen_any(kind, 32, Style::Odd, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    obs.shape(format!("{} elsewhere", st.desc()));
    let ctx = Ctx::gen(rng);
    let script = rng.next_u64();
    let make = || {
        rand::rngs::vp::install(Vec::new(), Some(script));
        let p = prove(&st, &wit, &mut ctx.tr());
        rand::rngs::vp::uninstall();
        p
    };
    let (here, again) = (make(), make());
    let p = match (here, again) {
        (Ok(p), Ok(q)) if p == q => p,
        (Ok(_), Ok(_)) => {
            obs.count("randomness from elsewhere", 1);
            return Ok(());
        }
        _ => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    fp(&digest(&p).to_le_bytes());
    let mut set = vec![p.clone()];
    for s in pick(&proof_slots(&p), 3, rng) {
        set.push(tamper_proof(&p, &s, rng).0);
    }
    set.push(malform(&p, rng).0);
    let verdicts = || set.iter().map(|q| verify(&st, q, &mut ctx.tr()).unwrap_or(false)).collect::<Vec<bool>>();
    let usual = verdicts();
    let day = 86400;
    let worlds = [
        fake::World { env: Some("1"), ..fake::REAL },
        fake::World { env: Some(["0", "", "true", "debug", "1000000"][rng.gen_range(0, 5)]), ..fake::REAL },
        fake::World { ahead: 20 * 365 * day, ..fake::REAL },
        fake::World { step: [1, 60, 3600][rng.gen_range(0, 3)], ..fake::REAL },
        fake::World { cpus: [1, 2, 3][rng.gen_range(0, 3)], ..fake::REAL },
        fake::World { cpus: [5, 7, 11, 64][rng.gen_range(0, 4)], ..fake::REAL },
    ];
    for w in worlds.iter() {
        let (q, a) = fake::within(*w, make);
        obs.count("questions to the system", a.iter().sum());
        match q {
            Ok(q) => ensure!(q == p, "{}: with the same inputs and generator the proof differs in {:?}", st.desc(), w),
            Err(e) => return violation(format!("{}: the prover fails in {:?}: {}", st.desc(), w, e)),
        }
        let (v, a) = fake::within(*w, verdicts);
        obs.count("questions to the system", a.iter().sum());
        ensure!(v == usual, "{}: verdicts {:?} become {:?} in {:?}", st.desc(), usual, v, w);
        obs.seen("verdicts in other surroundings compared");
    }
    // the same lists with spare room
    for _ in 0..4 {
        room(rng.next_u64() | 1);
        let (q, v) = (make(), verdicts());
        room(0);
        match q {
            Ok(q) => ensure!(q == p, "{}: with the same inputs and generator the proof differs when the lists have spare room", st.desc()),
            Err(e) => return violation(format!("{}: the prover fails when the lists have spare room: {}", st.desc(), e)),
        }
        ensure!(v == usual, "{}: verdicts {:?} become {:?} when the lists have spare room", st.desc(), usual, v);
        obs.seen("verdicts for lists with spare room compared");
    }
    Ok(())
}
fn c20_siblings(rng: &mut Rng, obs: &mut Obs) -> Res {
    rand::rngs::vp::uninstall();
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let (st, wit) = match gen_any(kind, 16, Style::Dense, true, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    obs.shape(format!("{} and siblings", st.desc()));
    let mut all: Vec<(Stmt, Wit, String, Ctx)> = vec![(st, wit, "as it was".into(), Ctx::gen(rng))];
    for _ in 0..5 {
        // of the first one, or of a sibling
        let (s, w, h, c) = all[rng.gen_range(0, all.len())].clone();
        if let Some((s, w, how)) = sibling(&s, &w, rng) {
            let c = if rng.gen_range(0, 2) == 0 { c } else { Ctx::gen(rng) };
            all.push((s, w, format!("{}; changed: {}", h, how), c));
        }
    }
    let mut last: Option<(Proof, usize)> = None;
    for step in 0..if obs.thorough { 24 } else { 10 } {
        let i = if step < all.len() { step } else { rng.gen_range(0, all.len()) };
        let (st, wit, how, ctx) = &all[i];
        // a proof is a function of its inputs and the generator, whatever was proved before
        let script = rng.next_u64();
        rand::rngs::vp::install(Vec::new(), Some(script));
        let here = prove(st, wit, &mut ctx.tr());
        rand::rngs::vp::uninstall();
        let p = match here {
            Ok(p) => p,
            Err(e) => return violation(format!("{} ({}): the prover fails after other proofs: {}", st.desc(), how, e)),
        };
        ensure!(verify(st, &p, &mut ctx.tr()) == Ok(true), "{} ({}): an honest proof is rejected, after proofs of similar statements", st.desc(), how);
        if step % 3 == 2 {
            let alone = || {
                std::thread::scope(|s| {
                    s.spawn(|| {
                        rand::rngs::vp::install(Vec::new(), Some(script));
                        prove(st, wit, &mut ctx.tr())
                    })
                    .join()
                })
            };
            match (alone(), alone()) {
                (Ok(Ok(x)), Ok(Ok(y))) if x == y => {
                    ensure!(x == p, "{} ({}): with the same generator the proof differs from one made by a new thread", st.desc(), how);
                    obs.seen("proofs of new threads compared");
                }
                (Ok(Ok(_)), Ok(Ok(_))) => obs.count("randomness from elsewhere", 1),
                (a, b) => {
                    return violation(format!("{} ({}): the prover fails in a new thread: {:?} {:?}", st.desc(), how, a.is_ok(), b.is_ok()))
                }
            }
        }
        // the proof before, against this statement
        if let Some((q, j)) = last {
            let (st2, _, how2, ctx2) = &all[j];
            let same = j == i || format!("{:?}", verify_key(st2)) == format!("{:?}", verify_key(st));
            let v = verify(st, &q, &mut ctx.tr());
            if !same {
                ensure!(v != Ok(true), "{} ({}): accepts a proof of a similar statement ({})", st.desc(), how, how2);
            }
            ensure!(verify(st2, &q, &mut ctx2.tr()) == Ok(true), "{} ({}): an honest proof is rejected after a proof of a similar statement ({})", st2.desc(), how2, how);
            obs.seen("sessions of similar statements");
        }
        last = Some((p, i));
    }
    Ok(())
}
/// What tells two statements apart.
fn verify_key(st: &Stmt) -> Vec<[u8; 32]> {
    let mut v: Vec<[u8; 32]> = Vec::new();
    if let Some(c) = st.crs() {
        v.extend(c.g.iter().chain(&c.h).chain(Some(&c.q)).map(|p| *p.compress().as_bytes()));
    }
    match st {
        Stmt::Ipa { p, t, .. } | Stmt::Alm { c: p, t, .. } => v.extend_from_slice(&[*p.compress().as_bytes(), *t.as_bytes()]),
        Stmt::Quad { gamma, .. } => v.extend(gamma.iter().flatten().flatten().map(|x| *x.as_bytes())),
        Stmt::Copy { gamma, coms, .. } => {
            v.extend(gamma.iter().flatten().flatten().map(|x| *x.as_bytes()));
            v.extend(coms.iter().map(|p| *p.compress().as_bytes()));
        }
        Stmt::Lm2 { a, t, .. } | Stmt::LmK { a, t, .. } => v.extend(a.iter().flatten().chain(t).map(|p| *p.compress().as_bytes())),
    }
    v
}

// ------------------------------------------------------------ C22

fn lg(n: usize) -> usize {
    let mut r = 0;
    while (1usize << r) < n {
        r += 1;
    }
    r
}
fn c22(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let style = if rng.gen_range(0, 3) == 0 { Style::Dense } else { Style::Odd };
    let (st, wit) = match gen_any(kind, if obs.thorough { 128 } else { 40 }, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    c22_at(st, wit, rng, obs)
}
fn c22_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    match sized(rng, obs) {
        Some((st, wit)) => c22_at(st, wit, rng, obs),
        None => Ok(()),
    }
}
fn c22_at(st: Stmt, wit: Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    let p = match prove(&st, &wit, &mut ctx.tr()) {
        Ok(p) => p,
        Err(_) => {
            obs.count("no proof", 1);
            return Ok(());
        }
    };
    obs.shape(st.desc());
    let mut q = p.clone();
    let (mut np, mut ns) = (0, 0);
    for s in proof_slots(&p) {
        match slot(&mut q, &s) {
            Slot::S(_) => ns += 1,
            _ => np += 1,
        }
    }
    let want = match &st {
        Stmt::Ipa { crs, .. } => (2 * lg(crs.g.len()), 2),
        Stmt::Alm { crs, .. } => (2 * lg(crs.g.len()) + 1, 2),
        Stmt::Quad { crs, .. } => (2 * lg(crs.g.len()) + 3, 2),
        Stmt::Copy { crs, .. } => (2 * lg(crs.g.len()) + 4, 2),
        Stmt::Lm2 { a, zk, .. } => (2 * a.len() * lg(a[0].len()) + if *zk { a.len() } else { 0 }, 1),
        Stmt::LmK { a, k, zk, .. } => {
            let (mut m, mut r) = (a[0].len(), 0);
            while m >= *k {
                m /= k;
                r += 1;
            }
            // blocks, folded map, folded target, mask commitment; folded witness
            ((2 * k - 1) * a.len() * r + a.len() * m + a.len() + if *zk { a.len() } else { 0 }, m)
        }
    };
    ensure!((np, ns) == want, "{}: the proof has {} points and {} scalars, expected {:?}", st.desc(), np, ns, want);
    match &p {
        Proof::Lm2 { z, .. } => {
            let (rows, cols) = match &st {
                Stmt::Lm2 { a, .. } => (a.len(), a[0].len()),
                _ => panic!(),
            };
            ensure!(z.l.len() == lg(cols) && z.r.len() == lg(cols), "{}: {} rounds", st.desc(), z.l.len());
            ensure!(z.l.iter().chain(z.r.iter()).all(|x| x.len() == rows), "{}: a round does not have one point per row", st.desc());
        }
        Proof::LmK { z, .. } => {
            let k = match &st {
                Stmt::LmK { k, .. } => *k,
                _ => panic!(),
            };
            ensure!(z.u.iter().all(|u| u.len() == 2 * k - 1), "{}: a round does not have 2k-1 blocks", st.desc());
        }
        _ => {
            let i = ipa_part(&mut q);
            ensure!(i.l.len() == i.r.len(), "{}: {} and {} points per side", st.desc(), i.l.len(), i.r.len());
        }
    }
    obs.seen("proof sizes compared");
    Ok(())
}

// ------------------------------------------------------------ C23

static SCALARS: Mutex<Vec<[u8; 32]>> = Mutex::new(Vec::new());
const CL: [&[u8]; 6] = [b"x", b"y", b"alpha", b"", b"a rather long challenge label, more than one block", b"x_i"];
fn c23(rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    let l = CL[rng.gen_range(0, CL.len())];
    let mut t = ctx.tr();
    let n0 = t.vp_log().len();
    let s = guard(|| t.challenge_scalar(l)).or_else(|e| violation(format!("challenge_scalar failed: {}", e)))?;
    let ev = log(&t)[n0..].to_vec();
    fp(s.as_bytes());
    obs.shape(format!("label {:?} after {} events", String::from_utf8_lossy(l), n0));
    match &ev[..] {
        [VpEvent::Challenge(ll, b)] => {
            ensure!(*ll == l, "the challenge was drawn under label {:?} instead of {:?}", ll, l);
            ensure!(b.len() == 64, "the challenge was drawn from {} bytes", b.len());
            ensure!(s == refimpl::wide(b), "the challenge is not the wide reduction of the transcript bytes");
        }
        _ => return violation(format!("drawing a challenge caused {} transcript events", ev.len())),
    }
    ensure!(S::from_canonical_bytes(*s.as_bytes()).is_some(), "the challenge scalar is not canonical");
    // what plain merlin returns for the same history
    let mut r = ctx.tr();
    ensure!(refimpl::chal(&mut r, l) == s, "the challenge differs from the one of an equal transcript");
    ensure!(ctx.tr().challenge_scalar(l) == s, "the challenge is not reproducible");
    // advanced: the next challenge differs, and equals the one of the other transcript
    let s2 = t.challenge_scalar(l);
    ensure!(s2 != s, "drawing a challenge does not advance the transcript");
    ensure!(refimpl::chal(&mut r, l) == s2, "the transcript after a challenge differs from merlin's");
    // other label, other history
    let l2 = CL[(CL.iter().position(|x| *x == l).unwrap() + rng.gen_range(1, CL.len())) % CL.len()];
    ensure!(ctx.tr().challenge_scalar(l2) != s, "labels {:?} and {:?} give the same challenge", l, l2);
    let (c2, how) = ctx.other(rng);
    ensure!(c2.tr().challenge_scalar(l) != s, "another history gives the same challenge ({})", how);
    let mut g = SCALARS.lock().unwrap();
    g.push(*s.as_bytes());
    g.push(*s2.as_bytes());
    obs.seen("challenges recomputed");
    Ok(())
}
fn c23_finish(obs: &mut Obs) -> Res {
    let v = SCALARS.lock().unwrap();
    obs.count("challenges in the distribution", v.len() as u64);
    bit_bias(&v, "challenge scalars")?;
    let set: HashSet<_> = v.iter().collect();
    // contexts may coincide (few labels, no events): only distinct histories were compared above
    obs.count("distinct challenges", set.len() as u64);
    Ok(())
}
/// Every bit of full-range scalars is about as often zero as one (10 sigma).
pub fn bit_bias(v: &[[u8; 32]], what: &str) -> Res {
    let mut u: Vec<&[u8; 32]> = v.iter().collect();
    u.sort();
    u.dedup();
    let n = u.len() as f64;
    if n < 200.0 {
        return Ok(());
    }
    for bit in 0..252 {
        let ones = u.iter().filter(|b| (b[bit / 8] >> (bit % 8)) & 1 == 1).count() as f64;
        let dev = (ones - n / 2.0).abs() / (n.sqrt() / 2.0);
        ensure!(dev < 10.0, "{}: bit {} is one in {} of {} samples", what, bit, ones, n);
    }
    Ok(())
}

// ------------------------------------------------------------ C24

fn c24_honest(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let max = if obs.thorough { 64 } else { 32 };
    let (st, wit) = match gen_any(kind, max, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    c24_at(st, wit, rng, obs)
}
fn c24_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    match sized(rng, obs) {
        Some((st, wit)) => c24_at(st, wit, rng, obs),
        None => Ok(()),
    }
}
fn c24_at(st: Stmt, wit: Wit, rng: &mut Rng, obs: &mut Obs) -> Res {
    let ctx = Ctx::gen(rng);
    obs.shape(st.desc());
    let mut tp = ctx.tr();
    if let Ok(p) = prove(&st, &wit, &mut tp) {
        let mut tv = ctx.tr();
        ensure!(refimpl::verify(&st, &p, &mut tv), "{} context {:?}: the independent verifier rejects the crate's honest proof", st.desc(), ctx);
        ensure!(log(&tp) == log(&tv), "{}: the crate's prover and the independent verifier have different transcripts", st.desc());
        obs.seen("crate proof, independent verifier");
    } else {
        obs.count("no proof", 1);
    }
    let mut tp = ctx.tr();
    let p = refimpl::prove(&st, &wit, &mut tp, rng);
    let mut tv = ctx.tr();
    match verify(&st, &p, &mut tv) {
        Ok(true) => {}
        r => return violation(format!("{} context {:?}: the crate's verifier does not accept an independent honest proof: {:?}", st.desc(), ctx, r)),
    }
    ensure!(log(&tp) == log(&tv), "{}: the independent prover and the crate's verifier have different transcripts", st.desc());
    obs.seen("independent proof, crate verifier");
    Ok(())
}
fn c24_altered(rng: &mut Rng, obs: &mut Obs) -> Res {
    let kind = KINDS[rng.gen_range(0, KINDS.len())];
    let style = if rng.gen_range(0, 2) == 0 { Style::Dense } else { Style::Odd };
    let (st, wit) = match gen_any(kind, 16, style, false, rng) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let ctx = Ctx::gen(rng);
    obs.shape(format!("{} altered", st.desc()));
    let p = refimpl::prove(&st, &wit, &mut ctx.tr(), rng);
    for _ in 0..5 {
        let (mut q, mut st2, mut ctx2) = (p.clone(), st.clone(), ctx.clone());
        let what;
        match rng.gen_range(0, 4) {
            0 => {
                let ss = proof_slots(&p);
                let s = ss[rng.gen_range(0, ss.len())];
                let r = tamper_proof(&p, &s, rng);
                q = r.0;
                what = format!("{:?} {}", s, r.1);
            }
            1 => {
                let ss = stmt_slots(&st);
                let s = ss[rng.gen_range(0, ss.len())];
                let r = tamper_stmt(&st, &s, rng);
                st2 = r.0;
                what = format!("{:?} {}", s, r.1);
            }
            2 => {
                let r = malform(&p, rng);
                q = r.0;
                what = r.1;
            }
            _ => {
                let r = ctx.other(rng);
                ctx2 = r.0;
                what = r.1.to_string();
            }
        }
        let a = match verify(&st2, &q, &mut ctx2.tr()) {
            Ok(v) => v,
            Err(_) => {
                obs.count("crate verifier failed", 1);
                continue;
            }
        };
        let b = refimpl::verify(&st2, &q, &mut ctx2.tr());
        ensure!(a == b, "{}: on an altered input ({}) the crate's verifier says {} and the independent one {}", st.desc(), what, a, b);
        obs.seen("verdicts compared");
        obs.count(if a { "both accepted" } else { "both rejected" }, 1);
    }
    Ok(())
}

// ------------------------------------------------------------ C25

fn c25(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.gen_range(2, 40);
    let k = rng.gen_range(0, (n - 1).min(8) + 1);
    c25_at(n, k, rng, obs)
}
/// Numbers of messages and generators one after the other.
fn c25_sizes(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut v: Vec<(usize, usize)> = (0..=if obs.thorough { 300 } else { 140 }).map(|k| (k + 2 + k % 7, k)).collect();
    v.extend([(300, 1), (300, 4), (600, 2), (1500, 3), (256, 255), (257, 256), (258, 256), (520, 257)].iter());
    let (n, k) = walk(&v);
    c25_at(n, k, rng, obs)
}
fn c25_at(n: usize, k: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut d: Vec<S> = scs(rng, n);
    // generators are arbitrary points: equal, opposite, the identity
    if rng.gen_range(0, 3) == 0 {
        for _ in 0..1 + n / 8 {
            let (i, j) = (rng.gen_range(0, n - 1), rng.gen_range(0, n));
            d[i] = match rng.gen_range(0, 4) {
                0 => S::zero(),
                1 => -d[j],
                _ => d[j],
            };
        }
        obs.seen("equal generators");
    }
    let g: Vec<P> = d.iter().map(gp).collect();
    let mut set = BTreeSet::new();
    while set.len() < k {
        // the blinding generator's own index is avoided: two roles of one generator hide an exchange
        set.insert(rng.gen_range(0, n - 1) as u16);
    }
    let msgs: Vec<S> = (0..k).map(|_| sc_mix(rng)).collect();
    let r = sc_mix(rng);
    obs.shape(format!("n={} indices={:?}", n, set));
    for m in msgs.iter() {
        fp(m.as_bytes());
    }
    let com = |set: &BTreeSet<u16>, m: &[S], r: &S| guard(|| hooks::copy::commit(&g, set, m, r));
    // in the exponent
    let model = |set: &BTreeSet<u16>, m: &[S], r: &S| -> P {
        let mut e = d[n - 1] * r;
        for (i, m) in set.iter().zip(m) {
            e += d[*i as usize] * m;
        }
        gp(&e)
    };
    let c = match com(&set, &msgs, &r) {
        Ok(c) => c,
        Err(e) => return violation(format!("commit failed (n={} indices={:?}): {}", n, set, e)),
    };
    ensure!(c == model(&set, &msgs, &r), "a commitment over {:?} of {} differs from its definition", set, n);
    // additively homomorphic
    let m2: Vec<S> = (0..k).map(|_| sc_mix(rng)).collect();
    let r2 = sc_mix(rng);
    let sum: Vec<S> = msgs.iter().zip(&m2).map(|(a, b)| a + b).collect();
    let (c2, cs) = (com(&set, &m2, &r2), com(&set, &sum, &(r + r2)));
    ensure!(c2.is_ok() && cs.is_ok() && c + c2.unwrap() == cs.unwrap(), "commitments over {:?} are not additive", set);
    // sensitive to everything
    let all: Vec<usize> = (0..k).collect();
    for i in pick(&all, 8, rng) {
        let mut m = msgs.clone();
        m[i] = other_scalar(&m[i], rng).0;
        let old = *set.iter().nth(i).unwrap();
        ensure!(com(&set, &m, &r) == Ok(model(&set, &m, &r)), "a commitment over {:?} of {} differs from its definition", set, n);
        ensure!(d[old as usize] == S::zero() || com(&set, &m, &r) != Ok(c), "changing message {} over {:?} does not change the commitment", i, set);
        let old = *set.iter().nth(i).unwrap();
        if msgs[i] != S::zero() && set.len() + 1 < n - 1 {
            let mut s = set.clone();
            s.remove(&old);
            let mut x = rng.gen_range(0, n - 1) as u16;
            while set.contains(&x) {
                x = rng.gen_range(0, n - 1) as u16;
            }
            s.insert(x);
            let got = com(&s, &msgs, &r);
            ensure!(got == Ok(model(&s, &msgs, &r)), "a commitment over {:?} differs from its definition", s);
        }
    }
    ensure!(d[n - 1] == S::zero() || com(&set, &msgs, &(r + S::one())) != Ok(c), "changing the blinding value does not change the commitment over {:?}", set);
    // different sizes are refused
    let mut m = msgs.clone();
    m.push(sc_mix(rng));
    ensure!(com(&set, &m, &r).is_err(), "{} messages over {} indices were not refused", k + 1, k);
    if k > 0 {
        ensure!(com(&set, &msgs[..k - 1], &r).is_err(), "{} messages over {} indices were not refused", k - 1, k);
        ensure!(com(&BTreeSet::new(), &msgs, &r).is_err(), "{} messages over no indices were not refused", k);
    }
    obs.seen("commitments compared");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "a case is a size, a witness size and index sets; the placement is compared with an executable model, or the refusal with the model's; distinct by inputs",
            fams: vec![fam("small, any sets", 6, c12_small), fam("feasible", 4, c12_valid), fam("just feasible", 4, c12_tight), fam("reserved indices", 3, c12_reserved), fam("around the 16-bit limit", 1, c12_large), fam("large", 1, c12_crowded), fam("every number", 1, c12_sizes)],
            quick: 800000, thorough: 10_000_000, threads: 0, must_see: vec!["infeasible refused", "placement compared"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C14",
            rule: "a case is one or two vectors (zero, sparse, parallel, orthogonal, self-orthogonal, dense); distinct by the vectors",
            fams: vec![fam("orthogonality", 400, c14_orth), fam("freshness", 100, c14_random), fam("support", 200, c14_support), fam("every size", 2, c14_sizes), fam("one after the other", 3, c14_sequence)],
            quick: 350000, thorough: 6_000_000, threads: 0, must_see: vec!["orthogonality checked", "independent samples compared", "support checked", "samples of different lengths compared"], assumptions: vec!["a sample is wrong by chance with probability of about 2^-250"], finish: None,
        },
        Prop {
            id: "C16",
            rule: "a case is a proof, or a sequence of proofs, whose prover and verifier transcript logs are compared event by event; distinct by proof bytes",
            fams: vec![fam("one session", 5, c16_step), fam("sequence", 2, c16_chain), fam("every size", 1, c16_sizes)],
            quick: 8500, thorough: 70_000, threads: 0, must_see: vec!["sessions compared", "sequences verified", "wrong order rejected"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C17",
            rule: "a case is an honest proof of a random statement damaged in several ways; distinct by proof bytes",
            fams: vec![fam("damaged", 800, c17), fam("surplus but consistent", 100, c17_adaptive), fam("very long", 2, c17_long), fam("meant but undecodable", 60, c17_meant)],
            quick: 10000, thorough: 80_000, threads: 0, must_see: vec!["malformed rejected", "long proofs rejected", "meant proof accepted"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C18",
            rule: "a case is a child process that proves and verifies (accepted, rejected and malformed proofs of every protocol) with both output streams captured; distinct by seed",
            fams: vec![fam("child", 1, c18), fam("thousands of calls", 0, c18_many)],
            quick: 40, thorough: 600, threads: 0, must_see: vec!["children without output", "children with thousands of calls"], assumptions: vec!["output is observed at the file descriptors of the child"], finish: None,
        },
        Prop {
            id: "C19",
            rule: "a case is a shape with values drawn from a mixture of zero, boundary and random ones; every operation is compared with its definition; distinct by values",
            fams: vec![fam("scalars", 40, c19_scalar), fam("points", 20, c19_point), fam("generic numbers, splits, powers", 30, c19_general), fam("batches", 30, c19_batch), fam("refusals", 20, c19_refuse), fam("every size", 3, c19_sizes), fam("very large", 0, c19_huge)],
            quick: 160000, thorough: 3_000_000, threads: 0, must_see: vec!["operations compared", "refusals"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C20",
            rule: "a case is a set of proofs (accepted, altered, under other contexts) verified repeatedly, permuted and from four threads together with concurrent provers; distinct by proof bytes",
            fams: vec![fam("sessions", 3, c20), fam("many repetitions", 1, c20_long), fam("similar statements", 6, c20_siblings), fam("other surroundings", 3, c20_worlds)],
            quick: 900, thorough: 14_000, threads: 4, must_see: vec!["repeated verdicts compared", "verdicts in other surroundings compared", "verdicts for lists with spare room compared", "sessions of similar statements", "proofs of new threads compared", "concurrent verdicts compared", "masked components of concurrent proofs compared"], assumptions: vec!["the interleavings are those the scheduler produced"], finish: None,
        },
        Prop {
            id: "C22",
            rule: "a case is an honest proof whose points and scalars are counted; distinct by proof bytes",
            fams: vec![fam("random sizes", 7, c22), fam("every size", 1, c22_sizes)],
            quick: 12000, thorough: 60_000, threads: 0, must_see: vec!["proof sizes compared"], assumptions: vec![], finish: None,
        },
        Prop {
            id: "C23",
            rule: "a case is a transcript history and a label; the challenge is recomputed from the recorded transcript bytes; distinct by challenge",
            fams: vec![fam("challenge", 1, c23)],
            quick: 1500000, thorough: 10_000_000, threads: 0, must_see: vec!["challenges recomputed"], assumptions: vec!["merlin's output is uniform"], finish: Some(c23_finish),
        },
        Prop {
            id: "C24",
            rule: "a case is a statement proven by one implementation and verified by the other, or an altered proof judged by both; distinct by proof bytes",
            fams: vec![fam("honest", 5, c24_honest), fam("altered", 5, c24_altered), fam("every size", 2, c24_sizes)],
            quick: 5000, thorough: 60_000, threads: 0, must_see: vec!["crate proof, independent verifier", "independent proof, crate verifier", "both rejected"], assumptions: vec!["the independent implementation shares merlin and the group arithmetic with the crate"], finish: None,
        },
        Prop {
            id: "C25",
            rule: "a case is an index set, messages and a blinding value over generators with known logarithms; distinct by inputs",
            fams: vec![fam("commitments", 50, c25), fam("every size", 1, c25_sizes)],
            quick: 60000, thorough: 800_000, threads: 0, must_see: vec!["commitments compared"], assumptions: vec![], finish: None,
        },
    ]
}
#[allow(dead_code)]
fn _t(_: &Transcript) {}

/// Cases without group operations, for the interpreter.
pub fn scalar_only(part: usize, rng: &mut Rng) -> u64 {
    let mut obs = Obs::default();
    let mut n = 0;
    match part {
        0 => {
            for _ in 0..14 {
                for f in [c12_small, c12_valid, c12_tight, c12_reserved].iter() {
                    let _ = f(rng, &mut obs);
                    n += 1;
                }
            }
        }
        1 => {
            // odd and even, square and not
            for (r, c) in [(1, 1), (1, 5), (3, 2), (2, 2)].iter() {
                let _ = c19_scalar_at(*r, *c, rng, &mut obs);
                let _ = c19_batch_at(*r, *c, 3, rng, &mut obs);
                let _ = c19_split(*r, *c, 2, rng);
                let _ = c19_powers(3 * r + c, rng);
                n += 4;
            }
        }
        _ => {
            for l in [3usize, 4, 9].iter() {
                let _ = c14_orth_at(*l, rng, &mut obs);
                n += 1;
            }
        }
    }
    n
}
