#![allow(non_snake_case, dead_code, unused_imports, unused_mut, unused_variables)]
use curve25519_dalek::{
    ristretto::{CompressedRistretto, RistrettoPoint as P},
    scalar::Scalar as S,
    traits::{Identity, VartimeMultiscalarMul},
};
use merlin::Transcript;
use qesa::hooks::{alm_zk, copy, gramschmidt, ipa_no_zk, math_utils, qesa_inner};
use qesa::lmpa::{no_zk as lm, simple_zk as lmz};
use qesa::matrix::*;
use qesa::qesa_zk;
use qesa::transcript::TranscriptProtocol;
use std::collections::BTreeSet;

type Mat = Vec<Vec<S>>;
fn sc() -> S {
    S::random(&mut rand::thread_rng())
}
fn scs(n: usize) -> Vec<S> {
    (0..n).map(|_| sc()).collect()
}
fn pt() -> P {
    P::random(&mut rand::thread_rng())
}
fn pts(n: usize) -> Vec<P> {
    (0..n).map(|_| pt()).collect()
}
fn pmat(m: usize, n: usize) -> Vec<Vec<P>> {
    (0..m).map(|_| pts(n)).collect()
}
fn msm(a: &[S], p: &[P]) -> P {
    a.iter().zip(p.iter()).fold(P::identity(), |s, (a, p)| s + a * p)
}
fn ip(a: &[S], b: &[S]) -> S {
    a.iter().zip(b.iter()).fold(S::zero(), |s, (a, b)| s + a * b)
}
fn image(a: &Vec<Vec<P>>, w: &[S]) -> Vec<P> {
    a.iter().map(|r| msm(w, r)).collect()
}
fn tr() -> Transcript {
    Transcript::new(b"demo")
}
fn set(v: &[u16]) -> BTreeSet<u16> {
    v.iter().cloned().collect()
}
fn quad(m: &Mat, w: &[S]) -> S {
    let mut s = S::zero();
    for i in 0..w.len() {
        for j in 0..w.len() {
            s += m[i][j] * w[i] * w[j];
        }
    }
    s
}
/// a dense equation that w (with w[0] = 1) satisfies
fn equation(w: &[S]) -> Mat {
    let n = w.len();
    let mut m: Mat = (0..n).map(|_| scs(n)).collect();
    let v = quad(&m, w);
    m[0][0] -= v;
    m
}
fn witness(n: usize) -> Vec<S> {
    let mut w = scs(n - 2);
    w[0] = S::one();
    w
}
fn block(ms: Vec<Mat>) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in ms {
        b.push(m);
    }
    b
}
struct Crs {
    g: Vec<P>,
    h: Vec<P>,
    q: P,
}
fn crs(n: usize) -> Crs {
    Crs { g: pts(n), h: pts(n), q: pt() }
}
fn expect(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
/// whether f returns without panicking
fn returns<F: FnOnce() -> R, R>(f: F) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn qe(c: &Crs, b: &BlockMatrix, w: &[S]) -> bool {
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, b, w.to_vec());
    p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, b)
}
/// a statement of the committed-value protocol: eqs leaves the columns of the generator indices empty
struct Cp {
    c: Crs,
    sets: Vec<BTreeSet<u16>>,
    w: Vec<S>,
    open: Vec<(Vec<S>, S)>,
    eqs: Vec<Mat>,
}
fn no_eq(n: usize) -> Vec<Mat> {
    vec![vec![vec![S::zero(); n - 2]; n - 2]]
}
impl Cp {
    fn commitments(&self) -> Vec<P> {
        self.sets.iter().zip(self.open.iter()).map(|(s, (m, r))| {
            let g: Vec<P> = s.iter().map(|i| self.c.g[*i as usize]).collect();
            msm(m, &g) + r * self.c.g[self.c.g.len() - 1]
        }).collect()
    }
    fn prove(&self) -> copy::Copy {
        let map = copy::compute_mapping(self.c.g.len(), self.w.len(), &self.sets);
        copy::create(&mut tr(), self.c.g.clone(), self.c.h.clone(), &self.c.q, map, block(self.eqs.clone()), self.w.clone(), self.open.clone())
    }
    fn check(&self, p: &copy::Copy, com: Vec<P>) -> bool {
        let map = copy::compute_mapping(self.c.g.len(), self.w.len(), &self.sets);
        p.hook_verify(&mut tr(), self.c.g.clone(), self.c.h.clone(), &self.c.q, block(self.eqs.clone()), map, com)
    }
}
