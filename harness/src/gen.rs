//! Workload: honest statements and witnesses of every protocol.
use crate::core::{guard, Rng};
use crate::proto::*;
use qesa::hooks;
use rand::Rng as _;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// full-range values without zeros: every component matters
    Dense,
    /// zeros, boundary values, repeated and identity points
    Odd,
}

pub fn gen_crs(n: usize, style: Style, rng: &mut Rng) -> Crs {
    let mut g = pts(rng, n);
    let mut h = pts(rng, n);
    let mut q = pt(rng);
    if style == Style::Odd {
        use curve25519_dalek::traits::Identity;
        match rng.gen_range(0, 8) {
            0 => g[rng.gen_range(0, n)] = P::identity(),
            1 => h[rng.gen_range(0, n)] = P::identity(),
            2 => q = P::identity(),
            3 => g[n - 1] = g[0],
            4 => h = g.clone(),
            5 => q = g[0],
            6 => h[n / 2] = -h[0],
            _ => {}
        }
    }
    Crs { g, h, q }
}

pub fn vec_of(n: usize, style: Style, rng: &mut Rng) -> Vec<S> {
    if n == 0 {
        return Vec::new();
    }
    match style {
        Style::Dense => scs(rng, n),
        Style::Odd => match rng.gen_range(0, 6) {
            0 => vec![S::zero(); n],
            1 => {
                let mut v = vec![S::zero(); n];
                v[rng.gen_range(0, n)] = sc_mix(rng);
                v
            }
            2 => vec![sc_mix(rng); n],
            _ => (0..n).map(|_| sc_mix(rng)).collect(),
        },
    }
}

/// Witness of a quadratic statement: first entry one.
pub fn gen_w(n: usize, style: Style, rng: &mut Rng) -> Vec<S> {
    let mut w = vec_of(n - 2, style, rng);
    w[0] = S::one();
    if style == Style::Odd && n > 5 && rng.gen_range(0, 3) == 0 {
        // a multiplication gate: w3 = w1 * w2
        w[3] = w[1] * w[2];
    }
    w
}
pub fn quad_form(m: &Mat, w: &[S]) -> S {
    let mut s = S::zero();
    for i in 0..w.len() {
        for j in 0..w.len() {
            if m[i][j] != S::zero() {
                s += m[i][j] * w[i] * w[j];
            }
        }
    }
    s
}
/// An equation that `w` satisfies; rows and columns in `free` stay zero.
pub fn gen_eq(w: &[S], free: &BTreeSet<u16>, style: Style, rng: &mut Rng) -> Mat {
    let n = w.len();
    let ok: Vec<usize> = (0..n).filter(|i| !free.contains(&(*i as u16))).collect();
    let nz: Vec<usize> = ok.iter().cloned().filter(|i| w[*i] != S::zero()).collect();
    let mut m = vec![vec![S::zero(); n]; n];
    let kind = if style == Style::Dense { 0 } else { rng.gen_range(0, 7) };
    match kind {
        // all zero
        1 => return m,
        // skew-symmetric
        2 => {
            for a in 0..ok.len() {
                for b in 0..a {
                    let v = sc_mix(rng);
                    m[ok[a]][ok[b]] = v;
                    m[ok[b]][ok[a]] = -v;
                }
            }
            return m;
        }
        // linear: row 0 only
        3 => {
            for &j in ok.iter() {
                m[0][j] = sc_mix(rng);
            }
        }
        // one gate
        4 => {
            let (a, b) = (ok[rng.gen_range(0, ok.len())], ok[rng.gen_range(0, ok.len())]);
            m[a][b] = sc_mix(rng);
        }
        // one column
        5 => {
            let b = ok[rng.gen_range(0, ok.len())];
            for &i in ok.iter() {
                m[i][b] = sc_mix(rng);
            }
        }
        _ => {
            for &i in ok.iter() {
                for &j in ok.iter() {
                    m[i][j] = if style == Style::Dense { sc_nz(rng) } else { sc_mix(rng) };
                }
            }
        }
    }
    // correct one entry so that w satisfies the equation
    let (i, j) = (nz[rng.gen_range(0, nz.len())], nz[rng.gen_range(0, nz.len())]);
    let e = quad_form(&m, w);
    m[i][j] -= e * (w[i] * w[j]).invert();
    m
}

pub fn gen_quad(n: usize, k: usize, style: Style, rng: &mut Rng) -> (Stmt, Wit) {
    let w = gen_w(n, style, rng);
    let gamma = (0..k).map(|_| gen_eq(&w, &BTreeSet::new(), style, rng)).collect();
    (Stmt::Quad { crs: gen_crs(n, style, rng), gamma }, Wit::Quad(w))
}

// ------------------------------------------------------------ committed values

/// Independent model of the placement: (id, index, commitment, position).
pub fn model_map(n: usize, ws: usize, sets: &[BTreeSet<u16>]) -> Option<MapParts> {
    // the number of a commitment has 16 bits
    if sets.len() > 65536 {
        return None;
    }
    let mut unique = BTreeSet::new();
    for s in sets {
        for i in s {
            unique.insert(*i);
        }
    }
    for i in unique.iter() {
        if *i == 0 || *i as usize >= n - 2 {
            return None;
        }
    }
    let mut msgs = Vec::new();
    let mut p = ws;
    for (c, s) in sets.iter().enumerate() {
        for i in s.iter() {
            while p < n - 2 && unique.contains(&(p as u16)) {
                p += 1;
            }
            if p >= n - 2 {
                return None;
            }
            msgs.push((msgs.len(), *i, c as u16, p as u16));
            p += 1;
        }
    }
    let last = msgs.last()?.3;
    Some(MapParts { num: sets.len(), msgs, unique, last })
}

pub struct CopyCase {
    pub stmt: Stmt,
    pub wit: Wit,
    pub sets: Vec<BTreeSet<u16>>,
    pub ws: usize,
    /// the whole witness, with the messages in place
    pub full: Vec<S>,
}
/// Feasible sets of generator indices.
pub fn gen_sets(n: usize, rng: &mut Rng) -> (Vec<BTreeSet<u16>>, usize) {
    let nn = n - 2;
    loop {
        let u = rng.gen_range(1, (nn / 2).min(6) + 1);
        let mut pool: Vec<u16> = (1..nn as u16).collect();
        let mut uni = Vec::new();
        for _ in 0..u.min(pool.len()) {
            let i = rng.gen_range(0, pool.len());
            uni.push(pool.remove(i));
        }
        let c = if rng.gen_range(0, 4) == 0 { rng.gen_range(5, 12) } else { rng.gen_range(1, 5) };
        if rng.gen_range(0, 4) == 0 {
            // the first and the last usable generator
            let x = if rng.gen_range(0, 2) == 0 { 1 } else { nn as u16 - 1 };
            if !uni.contains(&x) {
                uni.push(x);
            }
        }
        let mut sets = Vec::new();
        for _ in 0..c {
            let mut s = BTreeSet::new();
            s.insert(uni[rng.gen_range(0, uni.len())]);
            for x in uni.iter() {
                if rng.gen_range(0, 3) == 0 {
                    s.insert(*x);
                }
            }
            sets.push(s);
        }
        // a commitment to nothing but its blinding value
        if rng.gen_range(0, 6) == 0 {
            sets.insert(rng.gen_range(0, sets.len() + 1), BTreeSet::new());
        }
        let ws = if rng.gen_range(0, 2) == 0 { rng.gen_range(1, 4) } else { rng.gen_range(1, nn) };
        if model_map(n, ws, &sets).is_some() {
            return (sets, ws);
        }
    }
}
pub fn commit_model(g: &[P], set: &BTreeSet<u16>, msgs: &[S], r: &S) -> P {
    let mut c = g[g.len() - 1] * r;
    for (i, m) in set.iter().zip(msgs) {
        c += g[*i as usize] * m;
    }
    c
}
pub fn gen_copy_with(n: usize, k: usize, sets: Vec<BTreeSet<u16>>, ws: usize, style: Style, rng: &mut Rng) -> Result<CopyCase, String> {
    let nn = n - 2;
    let crs = gen_crs(n, style, rng);
    let map = guard(|| hooks::copy::compute_mapping(n, ws, &sets))
        .map_err(|e| format!("a feasible placement was refused (n={} ws={} sets={:?}): {}", n, ws, sets, e))?;
    let map = MapParts::of(&map);
    let mut full = vec![S::zero(); nn];
    let vals = vec_of(ws, style, rng);
    for i in 1..ws {
        if !map.unique.contains(&(i as u16)) {
            full[i] = vals[i];
        }
    }
    full[0] = S::one();
    let w_short = full[..ws].to_vec();
    let openings: Vec<(Vec<S>, S)> = sets
        .iter()
        .map(|s| (vec_of(s.len(), style, rng), if style == Style::Dense { sc_nz(rng) } else { sc_mix(rng) }))
        .collect();
    let all: Vec<S> = openings.iter().flat_map(|o| o.0.iter().cloned()).collect();
    for (i, m) in map.msgs.iter().enumerate() {
        match full.get_mut(m.3 as usize) {
            Some(x) => *x = all[i],
            None => return Err(format!("message placed outside the witness: {:?}", m)),
        }
    }
    let coms = sets.iter().zip(openings.iter()).map(|(s, (m, r))| commit_model(&crs.g, s, m, r)).collect();
    let gamma = (0..k).map(|_| gen_eq(&full, &map.unique, style, rng)).collect();
    let w = match rng.gen_range(0, 3) {
        0 => full.clone(),
        1 => {
            let l = rng.gen_range(ws, nn + 1);
            let mut w = w_short.clone();
            w.resize(l, S::zero());
            w
        }
        _ => w_short,
    };
    Ok(CopyCase {
        stmt: Stmt::Copy { crs, gamma, map, coms },
        wit: Wit::Copy { w, openings },
        sets,
        ws,
        full,
    })
}
pub fn gen_copy(n: usize, k: usize, style: Style, rng: &mut Rng) -> Result<CopyCase, String> {
    let (sets, ws) = gen_sets(n, rng);
    gen_copy_with(n, k, sets, ws, style, rng)
}

// ------------------------------------------------------------ inner products, linear maps

pub fn gen_ipa(n: usize, style: Style, rng: &mut Rng) -> (Stmt, Wit) {
    let (crs, a, b, t) = gen_ab(n, style, rng);
    let p = msm(&a, &crs.g) + msm(&b, &crs.h) + t * crs.q;
    (Stmt::Ipa { crs, p, t }, Wit::Ab(a, b))
}
pub fn gen_alm(n: usize, style: Style, rng: &mut Rng) -> (Stmt, Wit) {
    let (crs, a, b, t) = gen_ab(n, style, rng);
    let c = msm(&a, &crs.g) + msm(&b, &crs.h);
    (Stmt::Alm { crs, c, t }, Wit::Ab(a, b))
}
/// square root of -1 modulo the group order
pub fn sqrt_m1() -> S {
    // l = 5 mod 8, so 2 is a non-residue and 2^((l-1)/4) squares to -1
    let mut e = [0u8; 32];
    // (l-1)/4, with l = 2^252 + 27742317777372353535851937790883648493
    let mut l = (-S::one()).to_bytes();
    let mut carry = 0u8;
    for i in (0..32).rev() {
        let v = l[i];
        l[i] = (v >> 2) | (carry << 6);
        carry = v & 3;
    }
    e.copy_from_slice(&l);
    let mut r = S::one();
    let two = S::from(2u64);
    for i in (0..256).rev() {
        r = r * r;
        if (e[i / 8] >> (i % 8)) & 1 == 1 {
            r = r * two;
        }
    }
    r
}
pub fn gen_vectors(n: usize, style: Style, rng: &mut Rng) -> (Vec<S>, Vec<S>, &'static str) {
    let mut a = vec_of(n, style, rng);
    let mut b = vec_of(n, style, rng);
    let mut how = "independent";
    if style == Style::Odd {
        match rng.gen_range(0, 8) {
            0 => {
                // orthogonal
                how = "orthogonal";
                if let Some(k) = a.iter().position(|x| *x != S::zero()) {
                    let e = ip(&a, &b);
                    b[k] -= e * a[k].invert();
                }
            }
            1 if n >= 2 => {
                how = "a self-orthogonal";
                a = self_orth(n, rng);
            }
            2 if n >= 2 => {
                how = "b self-orthogonal";
                b = self_orth(n, rng);
            }
            3 => {
                how = "parallel";
                let c = sc_mix(rng);
                b = a.iter().map(|x| x * c).collect();
            }
            4 if n >= 2 => {
                how = "both self-orthogonal and parallel";
                a = self_orth(n, rng);
                let c = sc_mix(rng);
                b = a.iter().map(|x| x * c).collect();
            }
            _ => {}
        }
    }
    (a, b, how)
}
pub fn self_orth(n: usize, rng: &mut Rng) -> Vec<S> {
    let i = sqrt_m1();
    let mut v = vec![S::zero(); n];
    for _ in 0..rng.gen_range(1, 3) {
        // pairs (x, i x) at the same two places stay self-orthogonal only once, so use fresh places
        let p = rng.gen_range(0, n / 2);
        let x = sc_nz(rng);
        v[2 * p] = x;
        v[2 * p + 1] = i * x;
    }
    v
}
fn gen_ab(n: usize, style: Style, rng: &mut Rng) -> (Crs, Vec<S>, Vec<S>, S) {
    let crs = gen_crs(n, style, rng);
    let (a, b, _) = gen_vectors(n, style, rng);
    let t = ip(&a, &b);
    (crs, a, b, t)
}

pub fn gen_pmat(m: usize, n: usize, style: Style, rng: &mut Rng) -> PMat {
    use curve25519_dalek::traits::Identity;
    // very tall maps are put together from a few rows
    let few = if m > 5_000 { 100 } else { m };
    let mut a: PMat = (0..few).map(|_| pts(rng, n)).collect();
    while a.len() < m {
        let r = a[rng.gen_range(0, few)].clone();
        a.push(r);
    }
    if style == Style::Odd {
        for _ in 0..rng.gen_range(0, 4) {
            let (i, j) = (rng.gen_range(0, m), rng.gen_range(0, n));
            a[i][j] = match rng.gen_range(0, 3) {
                0 => P::identity(),
                1 => a[0][0],
                _ => -a[m - 1][n - 1],
            };
        }
        if rng.gen_range(0, 8) == 0 {
            let i = rng.gen_range(0, m);
            a[i] = vec![P::identity(); n];
        }
        if m > 1 && rng.gen_range(0, 8) == 0 {
            a[m - 1] = a[0].clone();
        }
    }
    a
}
/// The image; the rows of very tall maps are few different ones.
fn image_of(a: &PMat, w: &[S]) -> Vec<P> {
    if a.len() <= 5_000 {
        return pmv(a, w);
    }
    let mut known: std::collections::HashMap<Vec<[u8; 32]>, P> = Default::default();
    a.iter()
        .map(|r| {
            let key: Vec<[u8; 32]> = r.iter().map(|p| p.compress().to_bytes()).collect();
            *known.entry(key).or_insert_with(|| pmv(&vec![r.clone()], w)[0])
        })
        .collect()
}
pub fn gen_lm2(m: usize, n: usize, zk: bool, style: Style, rng: &mut Rng) -> (Stmt, Wit) {
    let a = gen_pmat(m, n, style, rng);
    let w = vec_of(n, style, rng);
    let t = image_of(&a, &w);
    (Stmt::Lm2 { a, t, zk }, Wit::Lm(w))
}
pub fn gen_lmk(m: usize, n: usize, k: usize, zk: bool, style: Style, rng: &mut Rng) -> (Stmt, Wit) {
    let a = gen_pmat(m, n, style, rng);
    let w = vec_of(n, style, rng);
    let t = image_of(&a, &w);
    (Stmt::LmK { a, t, k, zk }, Wit::Lm(w))
}
/// Another true statement that shares all but one part with the given one.
pub fn sibling(st: &Stmt, wit: &Wit, rng: &mut Rng) -> Option<(Stmt, Wit, String)> {
    let (mut st, mut wit) = (st.clone(), wit.clone());
    let mut how = String::new();
    let swap_gens = |crs: &mut Crs, rng: &mut Rng| -> String {
        let n = crs.g.len();
        match rng.gen_range(0, 8) {
            0 => {
                crs.q = pt(rng);
                "another Q".into()
            }
            1 => {
                for x in crs.g.iter_mut().skip(1) {
                    *x = pt(rng);
                }
                "all G but the first".into()
            }
            2 => {
                for x in crs.h.iter_mut().skip(1) {
                    *x = pt(rng);
                }
                "all H but the first".into()
            }
            3 => {
                crs.h = pts(rng, n);
                "all H".into()
            }
            4 => {
                for x in crs.g.iter_mut().take(n - 1) {
                    *x = pt(rng);
                }
                "all G but the last".into()
            }
            5 => {
                crs.g = pts(rng, n);
                "all G".into()
            }
            6 => {
                let i = rng.gen_range(0, n);
                crs.h[i] = pt(rng);
                format!("H[{}]", i)
            }
            _ => {
                let i = rng.gen_range(0, n);
                crs.g[i] = pt(rng);
                format!("G[{}]", i)
            }
        }
    };
    match (&mut st, &mut wit) {
        (Stmt::Ipa { crs, p, t }, Wit::Ab(a, b)) => {
            if rng.gen_range(0, 3) == 0 {
                let i = rng.gen_range(0, a.len());
                a[i] += sc_nz(rng);
                how = format!("entry {} of the first vector", i);
            } else {
                how = swap_gens(crs, rng);
            }
            *t = ip(a, b);
            *p = msm(a, &crs.g) + msm(b, &crs.h) + *t * crs.q;
        }
        (Stmt::Alm { crs, c, t }, Wit::Ab(a, b)) => {
            if rng.gen_range(0, 3) == 0 {
                let i = rng.gen_range(0, b.len());
                b[i] += sc_nz(rng);
                how = format!("entry {} of the second vector", i);
            } else {
                how = swap_gens(crs, rng);
            }
            *t = ip(a, b);
            *c = msm(a, &crs.g) + msm(b, &crs.h);
        }
        (Stmt::Quad { crs, gamma }, Wit::Quad(w)) => match rng.gen_range(0, 4) {
            0 => {
                let i = rng.gen_range(1, w.len().max(2));
                if i >= w.len() {
                    return None;
                }
                w[i] += sc_nz(rng);
                for m in gamma.iter_mut() {
                    let v = quad_form(m, w);
                    m[0][0] -= v;
                }
                how = format!("entry {} of the witness", i);
            }
            1 => {
                let n = w.len();
                let (k, i, j) = (rng.gen_range(0, gamma.len()), rng.gen_range(0, n), rng.gen_range(0, n));
                gamma[k][i][j] += sc_nz(rng);
                let v = quad_form(&gamma[k], w);
                gamma[k][0][0] -= v;
                how = format!("coefficient {},{} of equation {}", i, j, k);
            }
            _ => how = swap_gens(crs, rng),
        },
        (Stmt::Copy { crs, gamma, map, coms }, Wit::Copy { w, openings }) => {
            let nn = crs.g.len() - 2;
            match rng.gen_range(0, 4) {
                0 => {
                    let i = rng.gen_range(0, openings.len());
                    openings[i].1 += sc_nz(rng);
                    how = format!("blinding value of commitment {}", i);
                }
                1 => {
                    let mut full = w.clone();
                    full.resize(nn, S::zero());
                    let all: Vec<S> = openings.iter().flat_map(|o| o.0.iter().cloned()).collect();
                    for (m, x) in map.msgs.iter().zip(&all) {
                        full[m.3 as usize] = *x;
                    }
                    let ok: Vec<usize> = (0..nn).filter(|i| !map.unique.contains(&(*i as u16))).collect();
                    let (k, i, j) = (rng.gen_range(0, gamma.len()), ok[rng.gen_range(0, ok.len())], ok[rng.gen_range(0, ok.len())]);
                    let d = sc_nz(rng);
                    gamma[k][i][j] += d;
                    gamma[k][0][0] -= d * full[i] * full[j];
                    how = format!("coefficient {},{} of equation {}", i, j, k);
                }
                _ => how = swap_gens(crs, rng),
            }
            for (c, com) in coms.iter_mut().enumerate() {
                let set: BTreeSet<u16> = map.msgs.iter().filter(|m| m.2 as usize == c).map(|m| m.1).collect();
                *com = commit_model(&crs.g, &set, &openings[c].0, &openings[c].1);
            }
        }
        (Stmt::Lm2 { a, t, .. }, Wit::Lm(w)) | (Stmt::LmK { a, t, .. }, Wit::Lm(w)) => {
            let (m, n) = (a.len(), w.len());
            match rng.gen_range(0, 4) {
                0 => {
                    let i = rng.gen_range(0, n);
                    w[i] += sc_nz(rng);
                    how = format!("entry {} of the witness", i);
                }
                1 => {
                    for x in a.iter_mut().flatten().skip(1) {
                        *x = pt(rng);
                    }
                    how = "all of the map but the first entry".into();
                }
                _ => {
                    let (i, j) = (rng.gen_range(0, m), rng.gen_range(0, n));
                    a[i][j] = pt(rng);
                    how = format!("entry {},{} of the map", i, j);
                }
            }
            *t = pmv(a, w);
        }
        _ => {}
    }
    Some((st, wit, how))
}
/// columns r * k^d with r < k
pub fn gen_kn(max: usize, rng: &mut Rng) -> (usize, usize) {
    loop {
        let k: usize = rng.gen_range(2, 8);
        let d = rng.gen_range(0, 5);
        let r = rng.gen_range(1, k);
        let n = r * k.pow(d as u32);
        if n <= max {
            return (k, n);
        }
    }
}

/// An honest case of any protocol; `rounds` asks for at least one folding round.
pub fn gen_any(kind: Kind, max: usize, style: Style, rounds: bool, rng: &mut Rng) -> Result<(Stmt, Wit), String> {
    let pow2 = |lo: usize, rng: &mut Rng| {
        let mut v = Vec::new();
        let mut n = lo;
        while n <= max {
            v.push(n);
            n *= 2;
        }
        v[rng.gen_range(0, v.len())]
    };
    Ok(match kind {
        Kind::Ipa => gen_ipa(pow2(if rounds { 2 } else { 1 }, rng), style, rng),
        Kind::Alm => gen_alm(pow2(2, rng), style, rng),
        Kind::Quad => {
            let n = pow2(4, rng);
            let k = rng.gen_range(1, 5);
            gen_quad(n, k, style, rng)
        }
        Kind::Copy => {
            let n = pow2(8, rng);
            let k = rng.gen_range(1, 4);
            let c = gen_copy(n, k, style, rng)?;
            (c.stmt, c.wit)
        }
        Kind::Lm2 | Kind::Lm2Zk => {
            let n = pow2(if rounds { 2 } else { 1 }, rng);
            gen_lm2(rng.gen_range(1, 5), n, kind == Kind::Lm2Zk, style, rng)
        }
        Kind::LmK | Kind::LmKZk => loop {
            let (k, n) = gen_kn(max, rng);
            if rounds && n < k {
                continue;
            }
            break gen_lmk(rng.gen_range(1, 5), n, k, kind == Kind::LmKZk, style, rng);
        },
    })
}

/// A statement's kind and dimensions.
#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub kind: Kind,
    /// size or number of columns
    pub n: usize,
    /// equations, rows
    pub m: usize,
    /// branching factor, commitments
    pub k: usize,
}
/// Dimensions of statements of every kind, to be walked one after the other.
pub fn size_list(thorough: bool) -> Vec<Size> {
    let mut v = Vec::new();
    let mut add = |kind: Kind, n: usize, m: usize, k: usize| v.push(Size { kind, n, m, k });
    for e in 0..=if thorough { 11 } else { 9 } {
        add(Kind::Ipa, 1 << e, 1, 1);
        add(Kind::Alm, 2 << e, 1, 1);
        add(Kind::Lm2, 1 << e, 1 + e % 2, 1);
        add(Kind::Lm2Zk, 1 << e, 1 + e % 2, 1);
    }
    for e in 2..=if thorough { 9 } else { 8 } {
        add(Kind::Quad, 1 << e, 1 + e % 3, 1);
        add(Kind::Copy, 2 << e, 1 + e % 2, 1 + e % 3);
    }
    for k in 2..=if thorough { 150 } else { 80 } {
        add(Kind::Quad, 4, k, 1);
        if k % 4 == 0 {
            add(Kind::Quad, 8, k, 1);
        }
    }
    for k in [130, 200, 255, 256, 257, 300].iter() {
        add(Kind::Quad, 4, *k, 1);
    }
    for m in [64, 65, 128, 129, 255, 256, 257, 300].iter() {
        add(if m % 2 == 0 { Kind::Lm2 } else { Kind::Lm2Zk }, 2, *m, 1);
        add(if m % 2 == 1 { Kind::LmK } else { Kind::LmKZk }, 3, *m, 3);
    }
    for k in [64, 100, 127, 128, 129, 130].iter() {
        add(Kind::LmK, *k, 1, *k);
    }
    for c in 1..=28 {
        add(Kind::Copy, 32, 1 + c % 2, c);
    }
    add(Kind::Copy, 128, 1, 100);
    for m in 1..=36 {
        add(Kind::Lm2, 1 << (m % 3), m, 1);
        add(Kind::Lm2Zk, 2 << (m % 2), m, 1);
        add(Kind::LmK, 3, m, 3);
        add(Kind::LmKZk, 2, m, 2);
    }
    let kmax = if thorough { 40 } else { 20 };
    for k in 2..=kmax {
        let mut p = 1;
        while p * k <= if thorough { 6000 } else { 2200 } {
            for r in [1, 2, k / 2, k - 1].iter() {
                if *r >= 1 && *r < k && (*r == 1 || p * r <= 100) {
                    add(if (k + r) % 3 == 0 { Kind::LmKZk } else { Kind::LmK }, r * p, 1, k);
                }
            }
            p *= k;
        }
    }
    // sizes of all kinds mixed, so that a prefix of the walk already has some of everything
    let l = v.len();
    let step = (l * 5 / 13..).find(|s| gcd(*s, l) == 1).unwrap();
    (0..l).map(|i| v[i * step % l]).collect()
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
pub fn gen_sized(z: Size, style: Style, rng: &mut Rng) -> Result<(Stmt, Wit), String> {
    Ok(match z.kind {
        Kind::Ipa => gen_ipa(z.n, style, rng),
        Kind::Alm => gen_alm(z.n, style, rng),
        Kind::Quad => gen_quad(z.n, z.m, style, rng),
        Kind::Copy => {
            let sets = (0..z.k).map(|i| std::iter::once((z.n - 3 - i % 2) as u16).collect()).collect();
            let ws = 1 + (z.n - 4 - z.k).min(2);
            let c = gen_copy_with(z.n, z.m, sets, ws.max(1), style, rng)?;
            (c.stmt, c.wit)
        }
        Kind::Lm2 | Kind::Lm2Zk => gen_lm2(z.m, z.n, z.kind == Kind::Lm2Zk, style, rng),
        Kind::LmK | Kind::LmKZk => gen_lmk(z.m, z.n, z.k, z.kind == Kind::LmKZk, style, rng),
    })
}
