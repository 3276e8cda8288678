//! The protocols of the crate behind one interface: statements, witnesses, proofs, and
//! tampering with any component of either.
#![allow(non_snake_case)]
use crate::core::{fp, guard, Rng};
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::{Transcript, VpEvent};
use qesa::hooks;
use qesa::lmpa;
use qesa::matrix::BlockMatrix;
use rand::{Rng as _, RngCore};
use std::collections::BTreeSet;

pub type S = Scalar;
pub type P = RistrettoPoint;
pub type C = CompressedRistretto;
pub type Mat = Vec<Vec<S>>;
pub type PMat = Vec<Vec<P>>;

// ------------------------------------------------------------ values

pub fn sc(rng: &mut Rng) -> S {
    let mut b = [0u8; 64];
    rng.fill_bytes(&mut b);
    S::from_bytes_mod_order_wide(&b)
}
pub fn sc_nz(rng: &mut Rng) -> S {
    loop {
        let s = sc(rng);
        if s != S::zero() {
            return s;
        }
    }
}
pub fn int(v: i64) -> S {
    if v < 0 {
        -S::from((-v) as u64)
    } else {
        S::from(v as u64)
    }
}
/// Mixture of full-range, small, negative and boundary scalars.
pub fn sc_mix(rng: &mut Rng) -> S {
    match rng.gen_range(0, 12) {
        0 | 1 => S::zero(),
        2 => S::one(),
        3 => -S::one(),
        4 => int(rng.gen_range(-9, 10)),
        5 => S::from(rng.next_u64()),
        6 => {
            // 2^k
            let k = rng.gen_range(0, 252);
            (0..k).fold(S::one(), |a, _| a + a)
        }
        7 => -S::from(rng.next_u64()),
        8 => S::from(2u64).invert(),
        _ => sc(rng),
    }
}
pub fn pt(rng: &mut Rng) -> P {
    &sc(rng) * &RISTRETTO_BASEPOINT_TABLE
}
pub fn pts(rng: &mut Rng, n: usize) -> Vec<P> {
    (0..n).map(|_| pt(rng)).collect()
}
pub fn scs(rng: &mut Rng, n: usize) -> Vec<S> {
    (0..n).map(|_| sc_nz(rng)).collect()
}
pub fn ip(a: &[S], b: &[S]) -> S {
    assert_eq!(a.len(), b.len());
    let mut s = S::zero();
    for i in 0..a.len() {
        s += a[i] * b[i];
    }
    s
}
/// Sum of scalar multiples, one by one.
pub fn msm(a: &[S], g: &[P]) -> P {
    assert_eq!(a.len(), g.len());
    let mut s = P::identity();
    for i in 0..a.len() {
        if a[i] != S::zero() {
            s += a[i] * g[i];
        }
    }
    s
}
pub fn mv(a: &Mat, v: &[S]) -> Vec<S> {
    a.iter().map(|r| ip(r, v)).collect()
}
pub fn pmv(a: &PMat, v: &[S]) -> Vec<P> {
    a.iter().map(|r| msm(v, r)).collect()
}

// ------------------------------------------------------------ lists with spare room

thread_local! {
    static ROOM: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// From here on, on this thread, the lists given to the crate have spare room (0: none).
pub fn room(seed: u64) {
    ROOM.with(|c| c.set(seed))
}
fn spare(len: usize) -> usize {
    ROOM.with(|c| {
        let s = c.get();
        if s == 0 {
            return 0;
        }
        let s = (s ^ (s >> 29)).wrapping_mul(0xbf58476d1ce4e5b9).wrapping_add(0x9e3779b97f4a7c15) | 1;
        c.set(s);
        [0, 1, 3, len, len + 1, 3 * len, 17][(s >> 33) as usize % 7]
    })
}
/// A copy of the list, without or with spare room.
fn ls<T: Clone>(v: &[T]) -> Vec<T> {
    let mut x = Vec::with_capacity(v.len() + spare(v.len()));
    x.extend_from_slice(v);
    x
}
fn ls2<T: Clone>(v: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut x = Vec::with_capacity(v.len() + spare(v.len()));
    x.extend(v.iter().map(|r| ls(r)));
    x
}

// ------------------------------------------------------------ statements, witnesses, proofs

#[derive(Clone)]
pub struct Crs {
    pub g: Vec<P>,
    pub h: Vec<P>,
    pub q: P,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MapParts {
    pub num: usize,
    pub msgs: Vec<(usize, u16, u16, u16)>, // id, commitment index, crs id, position
    pub unique: BTreeSet<u16>,
    pub last: u16,
}
impl MapParts {
    pub fn of(m: &hooks::copy::Mapping) -> Self {
        let (num, msgs, unique, last) = m.hook_parts();
        MapParts { num, msgs, unique, last }
    }
    pub fn to(&self) -> hooks::copy::Mapping {
        hooks::copy::Mapping::hook_from_parts(self.num, self.msgs.clone(), self.unique.clone(), self.last)
    }
}
#[derive(Clone)]
pub enum Stmt {
    Ipa { crs: Crs, p: P, t: S },
    Alm { crs: Crs, c: P, t: S },
    Quad { crs: Crs, gamma: Vec<Mat> },
    Copy { crs: Crs, gamma: Vec<Mat>, map: MapParts, coms: Vec<P> },
    Lm2 { a: PMat, t: Vec<P>, zk: bool },
    LmK { a: PMat, t: Vec<P>, k: usize, zk: bool },
}
#[derive(Clone)]
pub enum Wit {
    Ab(Vec<S>, Vec<S>),
    Quad(Vec<S>),
    Copy { w: Vec<S>, openings: Vec<(Vec<S>, S)> },
    Lm(Vec<S>),
}
#[derive(Clone, PartialEq)]
pub struct IpaP {
    pub l: Vec<C>,
    pub r: Vec<C>,
    pub a: S,
    pub b: S,
}
#[derive(Clone, PartialEq)]
pub struct AlmP {
    pub cr: C,
    pub ipa: IpaP,
}
#[derive(Clone, PartialEq)]
pub struct QuadP {
    pub cp: C,
    pub cpp: C,
    pub alm: AlmP,
}
#[derive(Clone, PartialEq)]
pub struct Lm2P {
    pub l: PMat,
    pub r: PMat,
    pub w: S,
}
#[derive(Clone, PartialEq)]
pub struct LmKP {
    pub a: PMat,
    pub t: Vec<P>,
    pub w: Vec<S>,
    pub u: Vec<PMat>,
}
#[derive(Clone, PartialEq)]
pub enum Proof {
    Ipa(IpaP),
    Alm(AlmP),
    Quad(QuadP),
    Copy { cw: C, q: QuadP },
    Lm2 { z: Lm2P, mask: Option<Vec<P>> },
    LmK { z: LmKP, mask: Option<Vec<P>> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ipa,
    Alm,
    Quad,
    Copy,
    Lm2,
    Lm2Zk,
    LmK,
    LmKZk,
}
pub const KINDS: [Kind; 8] = [
    Kind::Ipa, Kind::Alm, Kind::Quad, Kind::Copy, Kind::Lm2, Kind::Lm2Zk, Kind::LmK, Kind::LmKZk,
];

impl Stmt {
    pub fn kind(&self) -> Kind {
        match self {
            Stmt::Ipa { .. } => Kind::Ipa,
            Stmt::Alm { .. } => Kind::Alm,
            Stmt::Quad { .. } => Kind::Quad,
            Stmt::Copy { .. } => Kind::Copy,
            Stmt::Lm2 { zk: false, .. } => Kind::Lm2,
            Stmt::Lm2 { .. } => Kind::Lm2Zk,
            Stmt::LmK { zk: false, .. } => Kind::LmK,
            Stmt::LmK { .. } => Kind::LmKZk,
        }
    }
    pub fn desc(&self) -> String {
        match self {
            Stmt::Ipa { crs, .. } | Stmt::Alm { crs, .. } => format!("{:?} n={}", self.kind(), crs.g.len()),
            Stmt::Quad { crs, gamma } => format!("Quad n={} equations={}", crs.g.len(), gamma.len()),
            Stmt::Copy { crs, gamma, map, coms } => format!(
                "Copy n={} equations={} commitments={} messages={} indices={:?}",
                crs.g.len(), gamma.len(), coms.len(), map.msgs.len(), map.unique
            ),
            Stmt::Lm2 { a, .. } => format!("{:?} rows={} cols={}", self.kind(), a.len(), a[0].len()),
            Stmt::LmK { a, k, .. } => format!("{:?} k={} rows={} cols={}", self.kind(), k, a.len(), a[0].len()),
        }
    }
    pub fn crs(&self) -> Option<&Crs> {
        match self {
            Stmt::Ipa { crs, .. } | Stmt::Alm { crs, .. } | Stmt::Quad { crs, .. } | Stmt::Copy { crs, .. } => Some(crs),
            _ => None,
        }
    }
}

pub fn block(g: &[Mat]) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in g {
        b.push(ls2(m));
    }
    b
}

// --- conversions to and from the crate's proof types
pub fn ipa_of(p: &hooks::ipa_no_zk::NoZK) -> IpaP {
    let (l, r, a, b) = p.hook_parts();
    IpaP { l, r, a, b }
}
pub fn ipa_to(p: &IpaP) -> hooks::ipa_no_zk::NoZK {
    hooks::ipa_no_zk::NoZK::hook_from_parts(ls(&p.l), ls(&p.r), p.a, p.b)
}
pub fn alm_of(p: &hooks::alm_zk::AlmZK) -> AlmP {
    let (cr, z) = p.hook_parts();
    AlmP { cr, ipa: ipa_of(&z) }
}
pub fn alm_to(p: &AlmP) -> hooks::alm_zk::AlmZK {
    hooks::alm_zk::AlmZK::hook_from_parts(p.cr, ipa_to(&p.ipa))
}
pub fn inner_of(p: &hooks::qesa_inner::Inner) -> QuadP {
    let (alm, cp, cpp) = p.hook_parts();
    QuadP { cp, cpp, alm: alm_of(&alm) }
}
pub fn inner_to(p: &QuadP) -> hooks::qesa_inner::Inner {
    hooks::qesa_inner::Inner::hook_from_parts(alm_to(&p.alm), p.cp, p.cpp)
}
pub fn lm2_of(p: &lmpa::no_zk::NoZK) -> Lm2P {
    let (l, r, w) = p.hook_parts();
    Lm2P { l, r, w }
}
pub fn lm2_to(p: &Lm2P) -> lmpa::no_zk::NoZK {
    lmpa::no_zk::NoZK::hook_from_parts(ls2(&p.l), ls2(&p.r), p.w)
}
pub fn lmk_of(p: &lmpa::no_zk::lmpa_noZK) -> LmKP {
    let (a, t, w, u) = p.hook_parts();
    LmKP { a, t, w, u }
}
pub fn lmk_to(p: &LmKP) -> lmpa::no_zk::lmpa_noZK {
    lmpa::no_zk::lmpa_noZK::hook_from_parts(ls2(&p.a), ls(&p.t), ls(&p.w), p.u.iter().map(|x| ls2(x)).collect())
}

/// A proof object of the crate, kept as such (for checks about the object itself).
pub enum Native {
    Ipa(hooks::ipa_no_zk::NoZK),
    Alm(hooks::alm_zk::AlmZK),
    Quad(qesa::qesa_zk::Zk),
    Copy(hooks::copy::Copy),
    Lm2(lmpa::no_zk::NoZK),
    Lm2Zk(lmpa::simple_zk::SimpleZK),
    LmK(lmpa::no_zk::lmpa_noZK),
    LmKZk(lmpa::simple_zk::SimpleZK_general),
}
impl Native {
    pub fn parts(&self) -> Proof {
        match self {
            Native::Ipa(p) => Proof::Ipa(ipa_of(p)),
            Native::Alm(p) => Proof::Alm(alm_of(p)),
            Native::Quad(p) => Proof::Quad(inner_of(&p.hook_parts())),
            Native::Copy(p) => {
                let (cw, inner) = p.hook_parts();
                Proof::Copy { cw, q: inner_of(&inner) }
            }
            Native::Lm2(p) => Proof::Lm2 { z: lm2_of(p), mask: None },
            Native::Lm2Zk(p) => {
                let (z, a) = p.hook_parts();
                Proof::Lm2 { z: lm2_of(z), mask: Some(a) }
            }
            Native::LmK(p) => Proof::LmK { z: lmk_of(p), mask: None },
            Native::LmKZk(p) => {
                let (z, a) = p.hook_parts();
                Proof::LmK { z: lmk_of(z), mask: Some(a) }
            }
        }
    }
    pub fn verify(&self, st: &Stmt, tr: &mut Transcript) -> bool {
        CALLS[1].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match (self, st) {
            (Native::Ipa(pr), Stmt::Ipa { crs, p, t }) => {
                pr.verify(tr, &crs.g, &crs.h, &crs.q, crs.g.len(), *p, *t)
            }
            (Native::Alm(pr), Stmt::Alm { crs, c, t }) => {
                pr.verify(tr, &crs.g, &crs.h, &crs.q, crs.g.len(), *c, *t)
            }
            (Native::Quad(pr), Stmt::Quad { crs, gamma }) => {
                pr.verify(tr, ls(&crs.g), ls(&crs.h), &crs.q, &block(gamma))
            }
            (Native::Copy(pr), Stmt::Copy { crs, gamma, map, coms }) => pr.hook_verify(
                tr, ls(&crs.g), ls(&crs.h), &crs.q, block(gamma), map.to(), ls(coms),
            ),
            (Native::Lm2(pr), Stmt::Lm2 { a, t, .. }) => {
                let (g, q) = dummy(a[0].len());
                pr.verify(tr, ls2(a), g.clone(), g, &q, a[0].len(), ls(t))
            }
            (Native::Lm2Zk(pr), Stmt::Lm2 { a, t, .. }) => {
                let (g, q) = dummy(a[0].len());
                pr.verify(tr, ls2(a), g.clone(), g, &q, a[0].len(), ls(t))
            }
            (Native::LmK(pr), Stmt::LmK { a, t, k, .. }) => {
                pr.verify_lmpa_noZK(tr, ls2(a), ls(t), a[0].len(), a.len(), *k, S::one(), P::identity())
            }
            (Native::LmKZk(pr), Stmt::LmK { a, t, k, .. }) => {
                pr.verify_general(tr, ls2(a), ls(t), a[0].len(), a.len(), *k)
            }
            _ => panic!("proof and statement of different protocols"),
        }
    }
}
// the two-way linear map takes generators it does not use
fn dummy(n: usize) -> (Vec<P>, P) {
    (vec![P::identity(); n], P::identity())
}

pub fn native(p: &Proof) -> Native {
    match p {
        Proof::Ipa(p) => Native::Ipa(ipa_to(p)),
        Proof::Alm(p) => Native::Alm(alm_to(p)),
        Proof::Quad(p) => Native::Quad(qesa::qesa_zk::Zk::hook_from_parts(inner_to(p))),
        Proof::Copy { cw, q } => Native::Copy(hooks::copy::Copy::hook_from_parts(*cw, inner_to(q))),
        Proof::Lm2 { z, mask: None } => Native::Lm2(lm2_to(z)),
        Proof::Lm2 { z, mask: Some(a) } => {
            Native::Lm2Zk(lmpa::simple_zk::SimpleZK::hook_from_parts(lm2_to(z), ls(a)))
        }
        Proof::LmK { z, mask: None } => Native::LmK(lmk_to(z)),
        Proof::LmK { z, mask: Some(a) } => {
            Native::LmKZk(lmpa::simple_zk::SimpleZK_general::hook_from_parts(lmk_to(z), ls(a)))
        }
    }
}

/// Calls of provers and verifiers of the crate.
pub static CALLS: [std::sync::atomic::AtomicU64; 2] =
    [std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0)];

/// The crate's prover.
pub fn prove_native(st: &Stmt, wit: &Wit, tr: &mut Transcript) -> Native {
    CALLS[0].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    match (st, wit) {
        (Stmt::Ipa { crs, .. }, Wit::Ab(a, b)) => Native::Ipa(hooks::ipa_no_zk::create(
            tr, ls(&crs.g), ls(&crs.h), &crs.q, ls(a), ls(b),
        )),
        (Stmt::Alm { crs, c, t }, Wit::Ab(a, b)) => Native::Alm(hooks::alm_zk::create(
            tr, ls(&crs.g), ls(&crs.h), &crs.q, *c, ls(a), ls(b), *t,
        )),
        (Stmt::Quad { crs, gamma }, Wit::Quad(w)) => Native::Quad(qesa::qesa_zk::create(
            tr, ls(&crs.g), ls(&crs.h), crs.q, &block(gamma), ls(w),
        )),
        (Stmt::Copy { crs, gamma, map, .. }, Wit::Copy { w, openings }) => Native::Copy(hooks::copy::create(
            tr, ls(&crs.g), ls(&crs.h), &crs.q, map.to(), block(gamma), ls(w), openings.iter().map(|o| (ls(&o.0), o.1)).collect(),
        )),
        (Stmt::Lm2 { a, zk, .. }, Wit::Lm(w)) => {
            let (g, q) = dummy(a[0].len());
            if *zk {
                Native::Lm2Zk(lmpa::simple_zk::create(tr, ls2(a), g.clone(), g, &q, ls(w)))
            } else {
                Native::Lm2(lmpa::no_zk::create(tr, ls2(a), g.clone(), g, &q, ls(w)))
            }
        }
        (Stmt::LmK { a, t, k, zk }, Wit::Lm(w)) => {
            if *zk {
                Native::LmKZk(lmpa::simple_zk::create_general(
                    tr, ls2(a), ls(w), ls(t), a[0].len(), a.len(), *k,
                ))
            } else {
                Native::LmK(lmpa::no_zk::create_lmpa_noZK(
                    tr, ls2(a), ls(w), ls(t), a[0].len(), a.len(), *k, S::one(), P::identity(),
                ))
            }
        }
        _ => panic!("statement and witness of different protocols"),
    }
}
pub fn prove(st: &Stmt, wit: &Wit, tr: &mut Transcript) -> Result<Proof, String> {
    guard(|| prove_native(st, wit, tr)).map(|p| {
        let p = p.parts();
        fp(&digest(&p).to_le_bytes());
        p
    })
}
pub fn verify(st: &Stmt, p: &Proof, tr: &mut Transcript) -> Result<bool, String> {
    let n = native(p);
    fp(&digest(p).to_le_bytes());
    guard(|| n.verify(st, tr))
}
pub fn digest(p: &Proof) -> u64 {
    let mut p = p.clone();
    let mut h = 0u64;
    for s in proof_slots(&p) {
        let b = slot_bytes(&mut p, &s);
        h = crate::core::hash64(&[&h.to_le_bytes(), &b]);
    }
    h
}

// ------------------------------------------------------------ contexts

const LABELS: [&[u8]; 4] = [b"qesa", b"vp context", b"x", b""];
const MLABELS: [&[u8]; 4] = [b"m", b"n", b"c_w", b"application data"];
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Msg(usize, Vec<u8>),
    Chal(usize, usize),
}
/// What the transcript contains before the proof starts.
#[derive(Clone, Debug, PartialEq)]
pub struct Ctx {
    pub label: usize,
    pub evs: Vec<Ev>,
}
impl Ctx {
    pub fn gen(rng: &mut Rng) -> Ctx {
        let label = rng.gen_range(0, LABELS.len());
        let k = *[0usize, 0, 1, 2, 3].get(rng.gen_range(0, 5)).unwrap();
        let evs = (0..k)
            .map(|_| {
                if rng.gen_range(0, 4) == 0 {
                    Ev::Chal(rng.gen_range(0, MLABELS.len()), rng.gen_range(1, 70))
                } else {
                    let l = rng.gen_range(0, 40);
                    let mut b = vec![0u8; l];
                    rng.fill_bytes(&mut b);
                    Ev::Msg(rng.gen_range(0, MLABELS.len()), b)
                }
            })
            .collect();
        Ctx { label, evs }
    }
    pub fn tr(&self) -> Transcript {
        let mut t = Transcript::new(LABELS[self.label]);
        for e in self.evs.iter() {
            match e {
                Ev::Msg(l, b) => t.append_message(MLABELS[*l], b),
                Ev::Chal(l, n) => {
                    let mut b = vec![0u8; *n];
                    t.challenge_bytes(MLABELS[*l], &mut b)
                }
            }
        }
        t
    }
    /// A different context.
    pub fn other(&self, rng: &mut Rng) -> (Ctx, &'static str) {
        let mut c = self.clone();
        loop {
            match rng.gen_range(0, 6) {
                0 => {
                    c.label = (c.label + rng.gen_range(1, LABELS.len())) % LABELS.len();
                    return (c, "label changed");
                }
                1 => {
                    c.evs.push(Ev::Msg(rng.gen_range(0, MLABELS.len()), vec![]));
                    return (c, "empty message added");
                }
                2 => {
                    c.evs.push(Ev::Chal(rng.gen_range(0, MLABELS.len()), 64));
                    return (c, "challenge drawn before");
                }
                3 if !c.evs.is_empty() => {
                    let i = rng.gen_range(0, c.evs.len());
                    c.evs.remove(i);
                    return (c, "context event dropped");
                }
                4 if !c.evs.is_empty() => {
                    let i = rng.gen_range(0, c.evs.len());
                    match &mut c.evs[i] {
                        Ev::Msg(l, b) => {
                            if b.is_empty() {
                                *l = (*l + 1) % MLABELS.len()
                            } else {
                                let j = rng.gen_range(0, b.len());
                                b[j] ^= 1 << rng.gen_range(0, 8);
                            }
                        }
                        Ev::Chal(l, _) => *l = (*l + 1) % MLABELS.len(),
                    }
                    return (c, "context event changed");
                }
                5 => {
                    c.evs.insert(0, Ev::Msg(0, b"first".to_vec()));
                    return (c, "message inserted at the start");
                }
                _ => continue,
            }
        }
    }
}
pub fn log(t: &Transcript) -> Vec<VpEvent> {
    t.vp_log().to_vec()
}
pub fn challenges(ev: &[VpEvent]) -> Vec<(&'static [u8], Vec<u8>)> {
    ev.iter()
        .filter_map(|e| match e {
            VpEvent::Challenge(l, b) => Some((*l, b.clone())),
            _ => None,
        })
        .collect()
}

// ------------------------------------------------------------ components of a proof

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PS {
    L(usize),
    R(usize),
    SA,
    SB,
    Cr,
    Cp,
    Cpp,
    Cw,
    M2L(usize, usize),
    M2R(usize, usize),
    M2W,
    Mask(usize),
    KU(usize, usize, usize),
    KA(usize, usize),
    KT(usize),
    KW(usize),
}
pub enum Slot<'a> {
    C(&'a mut C),
    P(&'a mut P),
    S(&'a mut S),
}
fn ipa_slots(p: &IpaP, v: &mut Vec<PS>) {
    v.extend((0..p.l.len()).map(PS::L));
    v.extend((0..p.r.len()).map(PS::R));
    v.push(PS::SA);
    v.push(PS::SB);
}
/// All components, in the order in which the prover produces them (as far as that is total).
pub fn proof_slots(p: &Proof) -> Vec<PS> {
    let mut v = Vec::new();
    match p {
        Proof::Ipa(p) => ipa_slots(p, &mut v),
        Proof::Alm(p) => {
            v.push(PS::Cr);
            ipa_slots(&p.ipa, &mut v)
        }
        Proof::Quad(p) => {
            v.extend_from_slice(&[PS::Cp, PS::Cpp, PS::Cr]);
            ipa_slots(&p.alm.ipa, &mut v)
        }
        Proof::Copy { q, .. } => {
            v.extend_from_slice(&[PS::Cw, PS::Cp, PS::Cpp, PS::Cr]);
            ipa_slots(&q.alm.ipa, &mut v)
        }
        Proof::Lm2 { z, mask } => {
            if let Some(m) = mask {
                v.extend((0..m.len()).map(PS::Mask));
            }
            for i in 0..z.l.len() {
                v.extend((0..z.l[i].len()).map(|j| PS::M2L(i, j)));
            }
            for i in 0..z.r.len() {
                v.extend((0..z.r[i].len()).map(|j| PS::M2R(i, j)));
            }
            v.push(PS::M2W);
        }
        Proof::LmK { z, mask } => {
            if let Some(m) = mask {
                v.extend((0..m.len()).map(PS::Mask));
            }
            for (i, u) in z.u.iter().enumerate() {
                for (l, x) in u.iter().enumerate() {
                    v.extend((0..x.len()).map(|j| PS::KU(i, l, j)));
                }
            }
            for (i, r) in z.a.iter().enumerate() {
                v.extend((0..r.len()).map(|j| PS::KA(i, j)));
            }
            v.extend((0..z.t.len()).map(PS::KT));
            v.extend((0..z.w.len()).map(PS::KW));
        }
    }
    v
}
pub fn ipa_part(p: &mut Proof) -> &mut IpaP {
    match p {
        Proof::Ipa(p) => p,
        Proof::Alm(p) => &mut p.ipa,
        Proof::Quad(p) => &mut p.alm.ipa,
        Proof::Copy { q, .. } => &mut q.alm.ipa,
        _ => panic!(),
    }
}
pub fn slot<'a>(p: &'a mut Proof, s: &PS) -> Slot<'a> {
    match *s {
        PS::L(i) => Slot::C(&mut ipa_part(p).l[i]),
        PS::R(i) => Slot::C(&mut ipa_part(p).r[i]),
        PS::SA => Slot::S(&mut ipa_part(p).a),
        PS::SB => Slot::S(&mut ipa_part(p).b),
        PS::Cr => match p {
            Proof::Alm(a) => Slot::C(&mut a.cr),
            Proof::Quad(q) | Proof::Copy { q, .. } => Slot::C(&mut q.alm.cr),
            _ => panic!(),
        },
        PS::Cp => match p {
            Proof::Quad(q) | Proof::Copy { q, .. } => Slot::C(&mut q.cp),
            _ => panic!(),
        },
        PS::Cpp => match p {
            Proof::Quad(q) | Proof::Copy { q, .. } => Slot::C(&mut q.cpp),
            _ => panic!(),
        },
        PS::Cw => match p {
            Proof::Copy { cw, .. } => Slot::C(cw),
            _ => panic!(),
        },
        PS::Mask(i) => match p {
            Proof::Lm2 { mask: Some(m), .. } | Proof::LmK { mask: Some(m), .. } => Slot::P(&mut m[i]),
            _ => panic!(),
        },
        PS::M2L(..) | PS::M2R(..) | PS::M2W => match p {
            Proof::Lm2 { z, .. } => match *s {
                PS::M2L(i, j) => Slot::P(&mut z.l[i][j]),
                PS::M2R(i, j) => Slot::P(&mut z.r[i][j]),
                _ => Slot::S(&mut z.w),
            },
            _ => panic!(),
        },
        PS::KU(..) | PS::KA(..) | PS::KT(_) | PS::KW(_) => match p {
            Proof::LmK { z, .. } => match *s {
                PS::KU(i, l, j) => Slot::P(&mut z.u[i][l][j]),
                PS::KA(i, j) => Slot::P(&mut z.a[i][j]),
                PS::KT(i) => Slot::P(&mut z.t[i]),
                PS::KW(i) => Slot::S(&mut z.w[i]),
                _ => panic!(),
            },
            _ => panic!(),
        },
    }
}
pub fn slot_bytes(p: &mut Proof, s: &PS) -> [u8; 32] {
    match slot(p, s) {
        Slot::C(c) => *c.as_bytes(),
        Slot::P(x) => *x.compress().as_bytes(),
        Slot::S(x) => *x.as_bytes(),
    }
}
/// A different point.
pub fn other_point(x: &P, rng: &mut Rng) -> (P, &'static str) {
    let b = RISTRETTO_BASEPOINT_POINT;
    let (y, w) = match rng.gen_range(0, 6) {
        0 => (x + b, "plus the base point"),
        1 => (-x, "negated"),
        2 => (P::identity(), "identity"),
        3 => (x + x, "doubled"),
        4 => (x - b, "minus the base point"),
        _ => (pt(rng), "random"),
    };
    if y == *x {
        (x + b, "plus the base point")
    } else {
        (y, w)
    }
}
pub fn other_scalar(x: &S, rng: &mut Rng) -> (S, &'static str) {
    let (y, w) = match rng.gen_range(0, 6) {
        0 => (x + S::one(), "plus one"),
        1 => (-x, "negated"),
        2 => (S::zero(), "zero"),
        3 => (x + x, "doubled"),
        4 => (x - S::one(), "minus one"),
        _ => (sc(rng), "random"),
    };
    if y == *x {
        (x + S::one(), "plus one")
    } else {
        (y, w)
    }
}
/// Changes one component of the proof.
pub fn tamper_proof(p: &Proof, s: &PS, rng: &mut Rng) -> (Proof, &'static str) {
    let mut q = p.clone();
    let how = match slot(&mut q, s) {
        Slot::C(c) => {
            let (y, how) = match c.decompress() {
                Some(x) => other_point(&x, rng),
                None => (pt(rng), "random instead of invalid"),
            };
            *c = y.compress();
            how
        }
        Slot::P(x) => {
            let (y, how) = other_point(x, rng);
            *x = y;
            how
        }
        Slot::S(x) => {
            let (y, how) = other_scalar(x, rng);
            *x = y;
            how
        }
    };
    (q, how)
}

// ------------------------------------------------------------ components of a statement

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SS {
    G(usize),
    H(usize),
    Q,
    P,
    T,
    Gamma(usize, usize, usize),
    Com(usize),
    A(usize, usize),
    Tv(usize),
}
pub fn stmt_slots(st: &Stmt) -> Vec<SS> {
    let mut v = Vec::new();
    if let Some(c) = st.crs() {
        v.extend((0..c.g.len()).map(SS::G));
        v.extend((0..c.h.len()).map(SS::H));
        v.push(SS::Q);
    }
    match st {
        Stmt::Ipa { .. } | Stmt::Alm { .. } => v.extend_from_slice(&[SS::P, SS::T]),
        Stmt::Quad { gamma, .. } | Stmt::Copy { gamma, .. } => {
            for (k, m) in gamma.iter().enumerate() {
                for (i, r) in m.iter().enumerate() {
                    v.extend((0..r.len()).map(|j| SS::Gamma(k, i, j)));
                }
            }
        }
        Stmt::Lm2 { a, t, .. } | Stmt::LmK { a, t, .. } => {
            for (i, r) in a.iter().enumerate() {
                v.extend((0..r.len()).map(|j| SS::A(i, j)));
            }
            v.extend((0..t.len()).map(SS::Tv));
        }
    }
    if let Stmt::Copy { coms, .. } = st {
        v.extend((0..coms.len()).map(SS::Com));
    }
    v
}
pub fn tamper_stmt(st: &Stmt, s: &SS, rng: &mut Rng) -> (Stmt, &'static str) {
    let mut st = st.clone();
    let crs = match &mut st {
        Stmt::Ipa { crs, .. } | Stmt::Alm { crs, .. } | Stmt::Quad { crs, .. } | Stmt::Copy { crs, .. } => Some(crs),
        _ => None,
    };
    fn p(x: &mut P, rng: &mut Rng) -> &'static str {
        let (y, h) = other_point(x, rng);
        *x = y;
        h
    }
    fn f(x: &mut S, rng: &mut Rng) -> &'static str {
        let (y, h) = other_scalar(x, rng);
        *x = y;
        h
    }
    let how = match *s {
        SS::G(i) => p(&mut crs.unwrap().g[i], rng),
        SS::H(i) => p(&mut crs.unwrap().h[i], rng),
        SS::Q => p(&mut crs.unwrap().q, rng),
        _ => match (&mut st, *s) {
            (Stmt::Ipa { p: x, .. }, SS::P) | (Stmt::Alm { c: x, .. }, SS::P) => p(x, rng),
            (Stmt::Ipa { t, .. }, SS::T) | (Stmt::Alm { t, .. }, SS::T) => f(t, rng),
            (Stmt::Quad { gamma, .. }, SS::Gamma(k, i, j)) | (Stmt::Copy { gamma, .. }, SS::Gamma(k, i, j)) => {
                f(&mut gamma[k][i][j], rng)
            }
            (Stmt::Copy { coms, .. }, SS::Com(i)) => p(&mut coms[i], rng),
            (Stmt::Lm2 { a, .. }, SS::A(i, j)) | (Stmt::LmK { a, .. }, SS::A(i, j)) => p(&mut a[i][j], rng),
            (Stmt::Lm2 { t, .. }, SS::Tv(i)) | (Stmt::LmK { t, .. }, SS::Tv(i)) => p(&mut t[i], rng),
            _ => panic!("no such statement component"),
        },
    };
    (st, how)
}
