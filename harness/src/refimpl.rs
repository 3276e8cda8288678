//! Independent implementation of every protocol, written from the transcript schedule and the
//! algebra: provers (which can also cheat) and verifiers. Uses only merlin and group arithmetic.
#![allow(non_snake_case)]
use crate::core::Rng;
use crate::proto::*;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;

/// 64 transcript bytes, reduced modulo the group order digit by digit.
pub fn wide(b: &[u8]) -> S {
    let base = S::from(256u64);
    let mut s = S::zero();
    for x in b.iter().rev() {
        s = s * base + S::from(*x as u64);
    }
    s
}
pub fn chal(tr: &mut Transcript, label: &'static [u8]) -> S {
    let mut b = [0u8; 64];
    tr.challenge_bytes(label, &mut b);
    wide(&b)
}
pub fn powers(x: S, n: usize) -> Vec<S> {
    // x, x^2, ..
    let mut v = Vec::new();
    let mut p = x;
    for _ in 0..n {
        v.push(p);
        p = p * x;
    }
    v
}
fn app(tr: &mut Transcript, l: &'static [u8], p: &P) {
    tr.append_message(l, p.compress().as_bytes());
}
pub fn transpose(m: &Mat) -> Mat {
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j]).collect()).collect()
}

/// Random vector orthogonal to every row.
pub fn null_random(rows: &[Vec<S>], n: usize, rng: &mut Rng) -> Vec<S> {
    let mut red: Vec<(usize, Vec<S>)> = Vec::new();
    for r in rows {
        let mut r = r.clone();
        for (p, q) in red.iter() {
            let f = r[*p];
            for j in 0..n {
                r[j] -= f * q[j];
            }
        }
        if let Some(p) = r.iter().position(|x| *x != S::zero()) {
            let inv = r[p].invert();
            for x in r.iter_mut() {
                *x *= inv;
            }
            for (_, q) in red.iter_mut() {
                let f = q[p];
                for j in 0..n {
                    q[j] -= f * r[j];
                }
            }
            red.push((p, r));
        }
    }
    let mut v: Vec<S> = (0..n).map(|_| sc(rng)).collect();
    for (p, _) in red.iter() {
        v[*p] = S::zero();
    }
    let free = v.clone();
    for (p, q) in red.iter() {
        v[*p] = -ip(q, &free);
    }
    v
}

// ------------------------------------------------------------ inner product

pub fn ipa_prove(tr: &mut Transcript, crs: &Crs, a: &[S], b: &[S]) -> IpaP {
    ipa_prove_scaled(tr, crs, a, b, &[S::one(); 3])
}
/// The parts of every commitment in G, H and Q come multiplied by the factors `f`.
pub fn ipa_prove_scaled(tr: &mut Transcript, crs: &Crs, a: &[S], b: &[S], f: &[S; 3]) -> IpaP {
    let n = a.len();
    tr.append_u64(b"n", n as u64);
    let alpha = chal(tr, b"alpha");
    let q = alpha.invert() * crs.q;
    let (mut a, mut b, mut g, mut h) = (a.to_vec(), b.to_vec(), crs.g.clone(), crs.h.clone());
    let (mut l, mut r) = (Vec::new(), Vec::new());
    while a.len() > 1 {
        let m = a.len() / 2;
        let L = f[0] * msm(&a[..m], &g[m..]) + f[1] * msm(&b[m..], &h[..m]) + f[2] * ip(&a[..m], &b[m..]) * q;
        let R = f[0] * msm(&a[m..], &g[..m]) + f[1] * msm(&b[..m], &h[m..]) + f[2] * ip(&a[m..], &b[..m]) * q;
        app(tr, b"L", &L);
        app(tr, b"R", &R);
        l.push(L.compress());
        r.push(R.compress());
        let x = chal(tr, b"x_i");
        a = (0..m).map(|i| x * a[i] + a[i + m]).collect();
        b = (0..m).map(|i| b[i] + x * b[i + m]).collect();
        g = (0..m).map(|i| g[i] + x * g[i + m]).collect();
        h = (0..m).map(|i| x * h[i] + h[i + m]).collect();
    }
    IpaP { l, r, a: a[0], b: b[0] }
}
pub fn ipa_verify(tr: &mut Transcript, crs: &Crs, p: &P, t: &S, pr: &IpaP) -> bool {
    let n = crs.g.len();
    let mut rounds = 0;
    while (1usize << rounds) < n {
        rounds += 1;
    }
    if pr.l.len() != rounds || pr.r.len() != rounds {
        return false;
    }
    tr.append_u64(b"n", n as u64);
    let alpha = chal(tr, b"alpha");
    let q = alpha.invert() * crs.q;
    let mut acc = p - (alpha - S::one()) * t * q;
    let mut xs = Vec::new();
    for i in 0..rounds {
        let (L, R) = match (pr.l[i].decompress(), pr.r[i].decompress()) {
            (Some(l), Some(r)) => (l, r),
            _ => return false,
        };
        tr.append_message(b"L", pr.l[i].as_bytes());
        tr.append_message(b"R", pr.r[i].as_bytes());
        let x = chal(tr, b"x_i");
        acc = x * x * L + x * acc + R;
        xs.push(x);
    }
    // coefficient of generator i after all rounds
    let mut expect = (pr.a * pr.b) * q;
    for i in 0..n {
        let mut cg = S::one();
        let mut ch = S::one();
        for (j, x) in xs.iter().enumerate() {
            if (i >> (rounds - 1 - j)) & 1 == 1 {
                cg *= x;
            } else {
                ch *= x;
            }
        }
        expect += (pr.a * cg) * crs.g[i] + (pr.b * ch) * crs.h[i];
    }
    expect == acc
}

// ------------------------------------------------------------ masked inner product

pub struct Masks {
    pub r1: Vec<S>,
    pub r2: Vec<S>,
}
pub fn alm_masks(a: &[S], b: &[S], rng: &mut Rng) -> Masks {
    let n = a.len();
    let r1 = null_random(&[b.to_vec()], n, rng);
    let r2 = null_random(&[a.to_vec(), r1.clone()], n, rng);
    Masks { r1, r2 }
}
pub fn alm_prove(tr: &mut Transcript, crs: &Crs, c: &P, a: &[S], b: &[S], t: &S, m: &Masks) -> AlmP {
    alm_prove_scaled(tr, crs, c, a, b, t, m, &[S::one(); 3])
}
pub fn alm_prove_scaled(tr: &mut Transcript, crs: &Crs, c: &P, a: &[S], b: &[S], t: &S, m: &Masks, f: &[S; 3]) -> AlmP {
    let cr = f[0] * msm(&m.r1, &crs.g) + f[1] * msm(&m.r2, &crs.h);
    app(tr, b"C_r", &cr);
    let beta = chal(tr, b"beta");
    let t2 = beta * beta * t;
    let p = beta * c + cr + t2 * crs.q;
    app(tr, b"P", &p);
    let ma: Vec<S> = (0..a.len()).map(|i| beta * a[i] + m.r1[i]).collect();
    let mb: Vec<S> = (0..a.len()).map(|i| beta * b[i] + m.r2[i]).collect();
    AlmP { cr: cr.compress(), ipa: ipa_prove_scaled(tr, crs, &ma, &mb, f) }
}
pub fn alm_verify(tr: &mut Transcript, crs: &Crs, c: &P, t: &S, pr: &AlmP) -> bool {
    tr.append_message(b"C_r", pr.cr.as_bytes());
    let cr = match pr.cr.decompress() {
        Some(x) => x,
        None => return false,
    };
    let beta = chal(tr, b"beta");
    let t2 = beta * beta * t;
    let p = beta * c + cr + t2 * crs.q;
    app(tr, b"P", &p);
    ipa_verify(tr, crs, &p, &t2, &pr.ipa)
}

// ------------------------------------------------------------ quadratic equations

pub fn bind_gamma(tr: &mut Transcript, gamma: &[Mat]) {
    for m in gamma {
        for row in m {
            let mut b = Vec::new();
            for x in row {
                b.extend_from_slice(x.as_bytes());
            }
            tr.append_message(b"gamma", &b);
        }
    }
}
pub fn batch(gamma: &[Mat], x: S) -> Mat {
    let n = gamma[0].len();
    let mut out = vec![vec![S::zero(); n]; n];
    let mut p = S::one();
    for m in gamma {
        p = p * x;
        for i in 0..n {
            for j in 0..n {
                out[i][j] += p * m[i][j];
            }
        }
    }
    out
}
/// The n x n matrix: the batched equations and a rotation in the two blinding positions.
fn extend(g: &Mat) -> Mat {
    let m = g.len();
    let mut e = vec![vec![S::zero(); m + 2]; m + 2];
    for i in 0..m {
        for j in 0..m {
            e[i][j] = g[i][j];
        }
    }
    e[m][m + 1] = -S::one();
    e[m + 1][m] = S::one();
    e
}
pub struct QuadCheat<'a> {
    /// claim the verifier's value in place of the true inner product
    pub claim_t: bool,
    /// use the first entry which the verifier's commitment really opens to
    pub effective_first: bool,
    /// witness for the second commitment when it shall differ
    pub second: Option<Vec<S>>,
    /// a witness chosen when the batching challenge is known; the second commitment carries the
    /// difference to the committed one
    pub late: Option<&'a dyn Fn(S) -> Vec<S>>,
}
impl<'a> QuadCheat<'a> {
    pub fn honest() -> Self {
        QuadCheat { claim_t: false, effective_first: false, second: None, late: None }
    }
    pub fn claim(claim_t: bool) -> Self {
        QuadCheat { claim_t, ..Self::honest() }
    }
}
/// `w` has n-2 entries, `r` two.
pub fn quad_prove(tr: &mut Transcript, crs: &Crs, gamma: &[Mat], w: &[S], r: &[S], rng: &mut Rng, ch: &QuadCheat<'_>) -> QuadP {
    let n = crs.g.len();
    bind_gamma(tr, gamma);
    let mut wp = w.to_vec();
    wp.extend_from_slice(r);
    let cp = msm(&wp, &crs.g);
    app(tr, b"c_prime_w", &cp);
    let x = chal(tr, b"x");
    let beta = chal(tr, b"beta");
    let g = batch(gamma, x);
    let mut crs2 = crs.clone();
    crs2.g[0] = beta.invert() * crs.g[0];
    if ch.effective_first {
        wp[0] = S::one() + beta * (wp[0] - S::one());
    }
    let mut extra = P::identity();
    if let Some(f) = ch.late {
        let l = f(x);
        for i in 0..n - 2 {
            extra += (l[i] - wp[i]) * crs2.g[i];
            wp[i] = l[i];
        }
    }
    let wlin = match &ch.second {
        Some(s) => s.clone(),
        None => wp[..n - 2].to_vec(),
    };
    let mut wpp = mv(&g, &wlin);
    wpp.push(-r[1]);
    wpp.push(r[0]);
    let cpp = msm(&wpp, &crs.h) + extra;
    app(tr, b"c_prime_prime_w", &cpp);
    let delta = chal(tr, b"delta");
    crs2.h = crs.h.iter().map(|h| delta * h).collect();
    let mut s = powers(chal(tr, b"s"), n - 2);
    let gs = mv(&transpose(&g), &s);
    let tv = -ip(&s, &gs);
    s.extend(powers(chal(tr, b"b"), 2));
    let ext = extend(&g);
    let es = mv(&transpose(&ext), &s);
    let a: Vec<S> = (0..n).map(|i| wp[i] - s[i]).collect();
    let b: Vec<S> = (0..n).map(|i| wpp[i] + es[i]).collect();
    let t = if ch.claim_t { tv } else { ip(&a, &b) };
    // the commitment the verifier will compute
    let cw = cp - (beta - S::one()) * crs2.g[0] + delta * cpp + msm(&es, &crs2.h) - msm(&s, &crs2.g);
    app(tr, b"c_w", &cw);
    let m = alm_masks(&a, &b, rng);
    let alm = alm_prove(tr, &crs2, &cw, &a, &b, &t, &m);
    QuadP { cp: cp.compress(), cpp: cpp.compress(), alm }
}
pub fn quad_verify(tr: &mut Transcript, crs: &Crs, gamma: &[Mat], pr: &QuadP) -> bool {
    let n = crs.g.len();
    bind_gamma(tr, gamma);
    tr.append_message(b"c_prime_w", pr.cp.as_bytes());
    let cp = match pr.cp.decompress() {
        Some(x) => x,
        None => return false,
    };
    let x = chal(tr, b"x");
    let beta = chal(tr, b"beta");
    let g = batch(gamma, x);
    let mut crs2 = crs.clone();
    crs2.g[0] = beta.invert() * crs.g[0];
    let cpp = match pr.cpp.decompress() {
        Some(x) => x,
        None => return false,
    };
    tr.append_message(b"c_prime_prime_w", pr.cpp.as_bytes());
    let delta = chal(tr, b"delta");
    crs2.h = crs.h.iter().map(|h| delta * h).collect();
    let mut s = powers(chal(tr, b"s"), n - 2);
    let t = -ip(&s, &mv(&transpose(&g), &s));
    s.extend(powers(chal(tr, b"b"), 2));
    let es = mv(&transpose(&extend(&g)), &s);
    let cw = cp - (beta - S::one()) * crs2.g[0] + delta * cpp + msm(&es, &crs2.h) - msm(&s, &crs2.g);
    app(tr, b"c_w", &cw);
    alm_verify(tr, &crs2, &cw, &t, &pr.alm)
}

// ------------------------------------------------------------ committed values

pub fn alphas(tr: &mut Transcript, n: usize) -> Vec<S> {
    (0..n).map(|_| chal(tr, b"alpha")).collect()
}
fn copy_eqs(n: usize, map: &MapParts, al: &[S]) -> Vec<Mat> {
    let m = n - 2;
    map.unique
        .iter()
        .map(|i| {
            let mut e = vec![vec![S::zero(); m]; m];
            e[0][*i as usize] = -S::one();
            for (_, idx, c, pos) in map.msgs.iter() {
                if idx == i {
                    e[0][*pos as usize] = al[*c as usize];
                }
            }
            e
        })
        .collect()
}
pub struct CopyCheat<'a> {
    /// messages in the witness, when they shall differ from the committed ones
    pub messages: Option<Vec<S>>,
    /// aggregate the placed messages (satisfying the equations) or the committed ones
    /// (matching the commitments)
    pub aggregate_placed: bool,
    /// components of commitments outside their generators: (commitment, position, value)
    pub stray: Vec<(usize, usize, S)>,
    pub quad: QuadCheat<'a>,
}
impl<'a> CopyCheat<'a> {
    pub fn honest() -> Self {
        CopyCheat { messages: None, aggregate_placed: true, stray: Vec::new(), quad: QuadCheat::honest() }
    }
}
/// `w` is padded with zeroes; `coms` are the commitments of the statement.
pub fn copy_prove(
    tr: &mut Transcript, crs: &Crs, gamma: &[Mat], map: &MapParts, coms: &[P], w: &[S],
    openings: &[(Vec<S>, S)], rng: &mut Rng, ch: &CopyCheat<'_>,
) -> (C, QuadP) {
    let n = crs.g.len();
    let mut wp = w.to_vec();
    wp.resize(n - 2, S::zero());
    wp.push(sc(rng));
    wp.push(sc(rng));
    let committed: Vec<S> = openings.iter().flat_map(|o| o.0.iter().cloned()).collect();
    let placed = ch.messages.clone().unwrap_or(committed.clone());
    for (i, m) in map.msgs.iter().enumerate() {
        wp[m.3 as usize] = placed[i];
    }
    for c in coms {
        app(tr, b"commitment", c);
    }
    let cw = msm(&wp, &crs.g);
    app(tr, b"c_w", &cw);
    let al = alphas(tr, coms.len());
    for (i, o) in openings.iter().enumerate() {
        wp[n - 1] += al[i] * o.1;
    }
    for (i, m) in map.msgs.iter().enumerate() {
        let v = if ch.aggregate_placed { placed[i] } else { committed[i] };
        wp[m.1 as usize] += al[m.2 as usize] * v;
    }
    for (c, p, v) in ch.stray.iter() {
        wp[*p] += al[*c] * v;
    }
    let mut all = gamma.to_vec();
    all.extend(copy_eqs(n, map, &al));
    let r = wp.split_off(n - 2);
    let mut q = quad_prove(tr, crs, &all, &wp, &r, rng, &ch.quad);
    let _ = &mut q;
    (cw.compress(), q)
}
pub fn copy_verify(tr: &mut Transcript, crs: &Crs, gamma: &[Mat], map: &MapParts, coms: &[P], cw: &C, q: &QuadP) -> bool {
    for c in coms {
        app(tr, b"commitment", c);
    }
    tr.append_message(b"c_w", cw.as_bytes());
    let al = alphas(tr, coms.len());
    let mut agg = match cw.decompress() {
        Some(x) => x,
        None => return false,
    };
    for (c, a) in coms.iter().zip(al.iter()) {
        agg += a * c;
    }
    if agg.compress() != q.cp {
        return false;
    }
    let mut all = gamma.to_vec();
    all.extend(copy_eqs(crs.g.len(), map, &al));
    quad_verify(tr, crs, &all, q)
}

// ------------------------------------------------------------ linear maps

pub fn bind_map(tr: &mut Transcript, a: &PMat, t: &[P]) {
    for r in a {
        for x in r {
            app(tr, b"A", x);
        }
    }
    for x in t {
        app(tr, b"t", x);
    }
}
fn cols(a: &PMat, lo: usize, hi: usize) -> PMat {
    a.iter().map(|r| r[lo..hi].to_vec()).collect()
}
pub fn lm2_prove(tr: &mut Transcript, a: &PMat, t: &[P], w: &[S]) -> Lm2P {
    bind_map(tr, a, t);
    lm2_core(tr, a, w)
}
pub fn lm2_core(tr: &mut Transcript, a: &PMat, w: &[S]) -> Lm2P {
    let (mut a, mut w) = (a.clone(), w.to_vec());
    let (mut l, mut r) = (Vec::new(), Vec::new());
    while w.len() > 1 {
        let m = w.len() / 2;
        let L = pmv(&cols(&a, 0, m), &w[m..]);
        let R = pmv(&cols(&a, m, 2 * m), &w[..m]);
        for x in L.iter() {
            app(tr, b"L", x);
        }
        for x in R.iter() {
            app(tr, b"R", x);
        }
        let c = chal(tr, b"challenge");
        a = a.iter().map(|row| (0..m).map(|i| row[i] + c * row[i + m]).collect()).collect();
        w = (0..m).map(|i| c * w[i] + w[i + m]).collect();
        l.push(L);
        r.push(R);
    }
    Lm2P { l, r, w: w[0] }
}
pub fn lm2_verify(tr: &mut Transcript, a: &PMat, t: &[P], pr: &Lm2P) -> bool {
    let n = a[0].len();
    let mut rounds = 0;
    while (1usize << rounds) < n {
        rounds += 1;
    }
    if t.len() != a.len() || pr.l.len() != rounds || pr.r.len() != rounds {
        return false;
    }
    if pr.l.iter().any(|x| x.len() != t.len()) || pr.r.iter().any(|x| x.len() != t.len()) {
        return false;
    }
    bind_map(tr, a, t);
    let mut cs = Vec::new();
    let mut acc = t.to_vec();
    for k in 0..rounds {
        for x in pr.l[k].iter() {
            app(tr, b"L", x);
        }
        for x in pr.r[k].iter() {
            app(tr, b"R", x);
        }
        let c = chal(tr, b"challenge");
        for i in 0..acc.len() {
            acc[i] = pr.l[k][i] + c * acc[i] + c * c * pr.r[k][i];
        }
        cs.push(c);
    }
    for (i, row) in a.iter().enumerate() {
        let mut e = P::identity();
        for (j, x) in row.iter().enumerate() {
            let mut co = pr.w;
            for (b, c) in cs.iter().enumerate() {
                if (j >> (rounds - 1 - b)) & 1 == 1 {
                    co *= c;
                }
            }
            e += co * x;
        }
        if e != acc[i] {
            return false;
        }
    }
    true
}
pub fn lmk_prove(tr: &mut Transcript, a: &PMat, t: &[P], w: &[S], k: usize) -> LmKP {
    bind_map(tr, a, t);
    lmk_core(tr, a, t, w, k)
}
pub fn lmk_core(tr: &mut Transcript, a: &PMat, t: &[P], w: &[S], k: usize) -> LmKP {
    lmk_core_with(tr, a, t, w, k, &|_| false)
}
/// In the rounds chosen by `correct` the target is replaced by the image of the folded witness.
pub fn lmk_core_with(tr: &mut Transcript, a: &PMat, t: &[P], w: &[S], k: usize, correct: &dyn Fn(usize) -> bool) -> LmKP {
    let rows = a.len();
    let (mut a, mut w, mut t) = (a.clone(), w.to_vec(), t.to_vec());
    let mut u = Vec::new();
    while w.len() >= k {
        let m = w.len() / k;
        let mut ul: PMat = vec![vec![P::identity(); rows]; 2 * k - 1];
        for i in 0..k {
            for j in 0..k {
                if i == j {
                    continue;
                }
                let v = pmv(&cols(&a, i * m, (i + 1) * m), &w[j * m..(j + 1) * m]);
                for q in 0..rows {
                    ul[k - 1 + j - i][q] += v[q];
                }
            }
        }
        ul[k - 1] = if correct(u.len()) { pmv(&a, &w) } else { t.clone() };
        for x in ul.iter().flatten() {
            app(tr, b"u_l", x);
        }
        let x = chal(tr, b"challenge_x");
        let y = x.invert();
        let mut xp = vec![S::one()];
        xp.extend(powers(x, k - 1));
        let mut yp = vec![S::one()];
        yp.extend(powers(y, k - 1));
        a = a
            .iter()
            .map(|row| (0..m).map(|c| (0..k).map(|i| xp[i] * row[i * m + c]).sum()).collect())
            .collect();
        w = (0..m).map(|c| (0..k).map(|j| yp[j] * w[j * m + c]).sum()).collect();
        let mut nt = vec![P::identity(); rows];
        for (l, v) in ul.iter().enumerate() {
            let z = if l < k - 1 { xp[k - 1 - l] } else { yp[l + 1 - k] };
            for q in 0..rows {
                nt[q] += z * v[q];
            }
        }
        t = nt;
        u.push(ul);
    }
    LmKP { a, t, w, u }
}
pub fn lmk_verify(tr: &mut Transcript, a: &PMat, t: &[P], k: usize, pr: &LmKP) -> bool {
    bind_map(tr, a, t);
    let n = a[0].len();
    if t.len() != a.len() {
        return false;
    }
    let mut rounds = 0;
    let mut m = n;
    while m >= k {
        m /= k;
        rounds += 1;
    }
    if pr.u.len() != rounds || pr.w.len() != m {
        return false;
    }
    let mut t = t.to_vec();
    let mut xs = Vec::new();
    for u in pr.u.iter() {
        if u.len() != 2 * k - 1 || u.iter().any(|x| x.len() != t.len()) || u[k - 1] != t {
            return false;
        }
        for x in u.iter().flatten() {
            app(tr, b"u_l", x);
        }
        let x = chal(tr, b"challenge_x");
        let y = x.invert();
        let mut nt = vec![P::identity(); t.len()];
        for (l, v) in u.iter().enumerate() {
            let mut z = S::one();
            let d = l as i64 - (k as i64 - 1);
            for _ in 0..d.abs() {
                z *= if d < 0 { x } else { y };
            }
            for q in 0..nt.len() {
                nt[q] += z * v[q];
            }
        }
        t = nt;
        xs.push(x);
    }
    let fa = lmk_fold(a, k, &xs);
    pr.a == fa && pr.t == t && pmv(&fa, &pr.w) == t
}
/// The map after the rounds with challenges `xs`.
pub fn lmk_fold(a: &PMat, k: usize, xs: &[S]) -> PMat {
    let n = a[0].len();
    let m = n / k.pow(xs.len() as u32);
    // folded map: coefficient of column j is x_1^(j_1) x_2^(j_2) .. with base-k digits from the top
    let mut fa: PMat = Vec::new();
    for row in a {
        let mut out = vec![P::identity(); m];
        for (j, e) in row.iter().enumerate() {
            let mut co = S::one();
            let mut size = n;
            let mut rem = j;
            for x in xs.iter() {
                size /= k;
                for _ in 0..rem / size {
                    co *= x;
                }
                rem %= size;
            }
            out[rem] += co * e;
        }
        fa.push(out);
    }
    fa
}

// ------------------------------------------------------------ uniform interface

pub fn prove(st: &Stmt, wit: &Wit, tr: &mut Transcript, rng: &mut Rng) -> Proof {
    match (st, wit) {
        (Stmt::Ipa { crs, .. }, Wit::Ab(a, b)) => Proof::Ipa(ipa_prove(tr, crs, a, b)),
        (Stmt::Alm { crs, c, t }, Wit::Ab(a, b)) => {
            let m = alm_masks(a, b, rng);
            Proof::Alm(alm_prove(tr, crs, c, a, b, t, &m))
        }
        (Stmt::Quad { crs, gamma }, Wit::Quad(w)) => {
            let r = [sc(rng), sc(rng)];
            Proof::Quad(quad_prove(tr, crs, gamma, w, &r, rng, &QuadCheat::honest()))
        }
        (Stmt::Copy { crs, gamma, map, coms }, Wit::Copy { w, openings }) => {
            let (cw, q) = copy_prove(tr, crs, gamma, map, coms, w, openings, rng, &CopyCheat::honest());
            Proof::Copy { cw, q }
        }
        (Stmt::Lm2 { a, t, zk: false }, Wit::Lm(w)) => Proof::Lm2 { z: lm2_prove(tr, a, t, w), mask: None },
        (Stmt::LmK { a, t, k, zk: false }, Wit::Lm(w)) => Proof::LmK { z: lmk_prove(tr, a, t, w, *k), mask: None },
        (Stmt::Lm2 { a, t, .. }, Wit::Lm(w)) | (Stmt::LmK { a, t, .. }, Wit::Lm(w)) => {
            let r: Vec<S> = (0..w.len()).map(|_| sc(rng)).collect();
            mask_prove(st, a, t, w, &r, &[], tr)
        }
        _ => panic!(),
    }
}
/// Masked linear map with given masks; `extra` is appended to the mask commitment (malformed if not empty).
pub fn mask_prove(st: &Stmt, a: &PMat, t: &[P], w: &[S], r: &[S], extra: &[P], tr: &mut Transcript) -> Proof {
    bind_map(tr, a, t);
    let mut m = pmv(a, r);
    m.extend_from_slice(extra);
    for x in m.iter() {
        app(tr, b"a", x);
    }
    let beta = chal(tr, b"beta");
    let w2: Vec<S> = (0..w.len()).map(|i| beta * w[i] + r[i]).collect();
    let t2: Vec<P> = (0..t.len()).map(|i| beta * t[i] + m[i]).collect();
    match st {
        Stmt::Lm2 { .. } => Proof::Lm2 { z: lm2_prove(tr, a, &t2, &w2), mask: Some(m) },
        Stmt::LmK { k, .. } => Proof::LmK { z: lmk_prove(tr, a, &t2, &w2, *k), mask: Some(m) },
        _ => panic!(),
    }
}
pub fn verify(st: &Stmt, p: &Proof, tr: &mut Transcript) -> bool {
    match (st, p) {
        (Stmt::Ipa { crs, p, t }, Proof::Ipa(pr)) => ipa_verify(tr, crs, p, t, pr),
        (Stmt::Alm { crs, c, t }, Proof::Alm(pr)) => alm_verify(tr, crs, c, t, pr),
        (Stmt::Quad { crs, gamma }, Proof::Quad(pr)) => quad_verify(tr, crs, gamma, pr),
        (Stmt::Copy { crs, gamma, map, coms }, Proof::Copy { cw, q }) => {
            copy_verify(tr, crs, gamma, map, coms, cw, q)
        }
        (Stmt::Lm2 { a, t, .. }, Proof::Lm2 { z, mask: None }) => lm2_verify(tr, a, t, z),
        (Stmt::LmK { a, t, k, .. }, Proof::LmK { z, mask: None }) => lmk_verify(tr, a, t, *k, z),
        (Stmt::Lm2 { a, t, .. }, Proof::Lm2 { mask: Some(m), .. })
        | (Stmt::LmK { a, t, .. }, Proof::LmK { mask: Some(m), .. }) => {
            bind_map(tr, a, t);
            for x in m.iter() {
                app(tr, b"a", x);
            }
            let beta = chal(tr, b"beta");
            if m.len() != t.len() {
                return false;
            }
            let t2: Vec<P> = (0..t.len()).map(|i| beta * t[i] + m[i]).collect();
            match (st, p) {
                (_, Proof::Lm2 { z, .. }) => lm2_verify(tr, a, &t2, z),
                (Stmt::LmK { k, .. }, Proof::LmK { z, .. }) => lmk_verify(tr, a, &t2, *k, z),
                _ => panic!(),
            }
        }
        _ => panic!(),
    }
}
