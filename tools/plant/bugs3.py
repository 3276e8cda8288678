BUGS = []
def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c12-demoted-count', 'C12', 'more messages than free positions, in a build without debug assertions',
 'The check that every message has got a position is a debug assertion: release builds place the surplus messages at position 0.',
 [(MAP, '    assert_eq!(total_messages, available_positions.len());', '    debug_assert_eq!(total_messages, available_positions.len());')],
 '''
    for n in [8usize, 16, 64].iter() {
        let free = n - 2 - 1 - 2;
        for extra in 1..4usize {
            // index 1 and 2 shared by as many commitments as needed
            let mut sets: Vec<BTreeSet<u16>> = Vec::new();
            let mut left = free + extra;
            while left > 0 {
                if left >= 2 { sets.push(set(&[1, 2])); left -= 2; } else { sets.push(set(&[2])); left -= 1; }
            }
            let n = *n;
            expect(returns(|| copy::compute_mapping(n, 1, &sets)).is_none(), "an infeasible placement was not refused");
        }
    }
''', plain=True)

bug('c19-demoted-rows', 'C19', 'rows of unequal length, in a build without debug assertions',
 'The length checks of the scalar row operations are debug assertions: release builds truncate to the shorter row.',
 [(MX, '''pub fn row_row_add(row_a: &[Scalar], row_b: &[Scalar]) -> Vec<Scalar> {
    assert_eq!''', '''pub fn row_row_add(row_a: &[Scalar], row_b: &[Scalar]) -> Vec<Scalar> {
    debug_assert_eq!'''),
  (MX, '''pub fn row_row_sub(row_a: &[Scalar], row_b: &[Scalar]) -> Vec<Scalar> {
    assert_eq!''', '''pub fn row_row_sub(row_a: &[Scalar], row_b: &[Scalar]) -> Vec<Scalar> {
    debug_assert_eq!''')],
 '''
    let (a, b) = (scs(4), scs(3));
    expect(returns(|| row_row_add(&a, &b)).is_none(), "rows of 4 and 3 entries were added");
    expect(returns(|| row_row_sub(&b, &a)).is_none(), "rows of 3 and 4 entries were subtracted");
''', plain=True)

bug('c13-short-seed', 'C13', 'an observer that tries all seeds of the masks',
 'The masks of inner products come from a generator seeded with 32 bits.',
 [(GS, '''    let mut rng = rand::thread_rng();

    r[0] = Scalar::random(&mut rng);''', '''    // one generator per vector, so that sampling does not contend for the thread's
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(rand::random::<u32>() as u64);

    r[0] = Scalar::random(&mut rng);''')],
 '''
    // 2^18 samples of a 32-bit seed collide
    let a = vec![S::zero(); 4];
    let mut seen = std::collections::HashSet::new();
    for _ in 0..(1 << 18) {
        let m = gramschmidt::sample_gram_schmidt(&a);
        expect(seen.insert(m[0].to_bytes()), "the same mask was sampled twice");
    }
''')

bug('c20-poison', 'C20', 'a refused (panicking) prover call earlier in the process',
 'The folding scratch space is shared behind a lock; a refused call poisons it and every later proof panics.',
 [(IPA, '''    let mut n = G.len();

    // All of the input vectors must have the same length.''', '''    let _folding = FOLDING.lock().unwrap();
    let mut n = G.len();

    // All of the input vectors must have the same length.'''),
  (IPA, '''#[derive(Clone)]
pub struct NoZK {''', '''use std::sync::Mutex;
// One proof is folded at a time: folding is memory-bound
static FOLDING: Mutex<()> = Mutex::new(());

#[derive(Clone)]
pub struct NoZK {''')],
 '''
    let run = || {
        let (g, h, q, a, b) = (pts(4), pts(4), pt(), scs(4), scs(4));
        let t = ip(&a, &b);
        let p = msm(&a, &g) + msm(&b, &h) + t * q;
        let pr = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a, b);
        pr.verify(&mut tr(), &g, &h, &q, 4, p, t)
    };
    expect(run(), "honest");
    // a caller's mistake, refused
    let _ = returns(|| ipa_no_zk::create(&mut tr(), pts(4), pts(4), &pt(), scs(3), scs(4)));
    expect(returns(run) == Some(true), "an honest proof after a refused one");
''')

bug('c18-large', 'C18', 'a statement with more than 48 equations',
 'Batching many equations prints a warning.',
 [(MX, '''        // This returns the block of matrices with each matrix multiplied by challenge''', '''        if self.block.len() > 48 {
            eprintln!("qesa: batching {} equations, this may take a while", self.block.len());
        }

        // This returns the block of matrices with each matrix multiplied by challenge''')],
 '''
    if std::env::args().nth(1).is_none() {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
        expect(o.status.success(), "child failed");
        expect(o.stdout.is_empty() && o.stderr.is_empty(), "output while proving or verifying");
        return;
    }
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let b = block((0..60).map(|_| equation(&w)).collect());
    if !qe(&c, &b, &w) { std::process::exit(7); }
''')

bug('c21-wrap', 'C21', 'more than 21845 messages',
 'Placement estimates the space it needs in 16 bits, which overflows for many messages.',
 [(MAP, '''    let available_positions: Vec<u16> = (position..n - 2)
''', '''    let reserve: u16 = 3 * total_messages as u16;
    let mut available_positions: Vec<u16> = Vec::with_capacity(reserve as usize);
    available_positions.extend((position..n - 2)
'''),
  (MAP, '''        .take(total_messages)
        .map(|x| x)
        .collect();''', '''        .take(total_messages)
        .map(|x| x));''')],
 '''
    // 22000 messages under two indices
    let sets: Vec<BTreeSet<u16>> = (0..11000).map(|_| set(&[1, 2])).collect();
    expect(returns(|| copy::compute_mapping(60000, 1, &sets)).is_some(), "arithmetic overflow while placing messages");
''')

bug('c21-race', 'C21', 'two threads which prove or verify at the same time',
 'The last powers of a challenge are kept in an unsynchronised global: a data race.',
 [(MU, '''    let mut challenges: Vec<Scalar> = Vec::with_capacity(n);
    challenges.push(x);
    for i in 0..n-1 {
        challenges.push(challenges[i] * x);
    }
    challenges''', '''    // prover and verifier of one process ask for the same powers
    unsafe {
        if let Some((y, powers)) = (*std::ptr::addr_of!(LAST)).as_ref() {
            if *y == x && powers.len() == n {
                return powers.clone();
            }
        }
    }
    let mut challenges: Vec<Scalar> = Vec::with_capacity(n);
    challenges.push(x);
    for i in 0..n-1 {
        challenges.push(challenges[i] * x);
    }
    unsafe {
        LAST = Some((x, challenges.clone()));
    }
    challenges'''),
  (MU, '''// Creates a vector from the scalar `x`''', '''static mut LAST: Option<(Scalar, Vec<Scalar>)> = None;

// Creates a vector from the scalar `x`''')],
 '''
    if std::env::args().nth(1).is_none() {
        // the race frees a vector which another thread reads: crashes or wrong powers, in some child
        for _ in 0..20 {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
            expect(o.status.success(), "a child crashed or computed wrong powers");
        }
        return;
    }
    let hs: Vec<_> = (0..8u64).map(|t| std::thread::spawn(move || {
        for i in 0..6000u64 {
            let x = S::from((i / 3) * 7 + t % 2 + 2);
            let v = math_utils::vandemonde_challenge(x, 40);
            if v.len() != 40 || v[0] != x || v[1] != x * x { std::process::exit(9); }
        }
    })).collect();
    for h in hs { if h.join().is_err() { std::process::exit(8); } }
''')

bug('c15-late-p', 'C15', 'a prover of a masked inner product which chooses the claimed value after the challenges',
 'The masked argument absorbs the commitment with the claimed product only after its inner proof: no challenge depends on the claimed value.',
 [(ALM, '''    transcript.append_message(b"P", P.as_bytes());

    //6. Call IPA_NoZK as a sub-protocol
    //
    let no_zk_proof = no_zk::create(transcript, G_Vec, H_Vec, Q, masked_a_Vec, masked_b_Vec);''',
 '''    let no_zk_proof = no_zk::create(transcript, G_Vec, H_Vec, Q, masked_a_Vec, masked_b_Vec);
    transcript.append_message(b"P", P.as_bytes());'''),
  (ALM, '''        transcript.append_message(b"P", P.compress().as_bytes());

        //6. Call IPA_NoZk as a sub-protocol
        //
        self.NoZK
            .verify(transcript, G_Vec, H_Vec, Q, n, P, beta_sq_t)''', '''        let accepted = self
            .NoZK
            .verify(transcript, G_Vec, H_Vec, Q, n, P, beta_sq_t);
        transcript.append_message(b"P", P.compress().as_bytes());
        accepted''')],
 '''
    // a false product: an error in L is made up for by the claimed value, chosen after the last challenge
    let n = 2;
    let (g, h, q, a, b, d) = (pts(n), pts(n), pt(), scs(n), scs(n), sc());
    let cw = msm(&a, &g) + msm(&b, &h);
    for early in [true, false].iter() {
        let mut t = tr();
        t.append_message(b"C_r", P::identity().compress().as_bytes());
        let be = t.challenge_scalar(b"beta");
        if *early {
            let pp = be * cw + be * be * ip(&a, &b) * q;
            t.append_message(b"P", pp.compress().as_bytes());
        }
        t.append_u64(b"n", n as u64);
        let al = t.challenge_scalar(b"alpha");
        let qq = al.invert() * q;
        let l = be * a[0] * g[1] + be * b[1] * h[0] + (be * be * a[0] * b[1] + d) * qq;
        let r = be * a[1] * g[0] + be * b[0] * h[1] + (be * be * a[1] * b[0]) * qq;
        t.append_message(b"L", l.compress().as_bytes());
        t.append_message(b"R", r.compress().as_bytes());
        let x = t.challenge_scalar(b"x_i");
        let inner = ipa_no_zk::NoZK::hook_from_parts(vec![l.compress()], vec![r.compress()], be * (a[0] * x + a[1]), be * (b[0] + x * b[1]));
        let p = alm_zk::AlmZK::hook_from_parts(P::identity().compress(), inner);
        let claimed = ip(&a, &b) - x * d * (be * be).invert();
        expect(!p.verify(&mut tr(), &g, &h, &q, n, cw, claimed), "a false inner product was accepted");
    }
''')

bug('c16-clone-one-row', 'C16', 'a map with one row and more than one proof on a transcript',
 'The masked two-way verifier checks the inner proof of a map with one row on a copy of the transcript.',
 [(LMZ, '''        self.no_zk.verify(transcript, A, G_Vec, H_Vec, &Q, n, t)''', '''        if t.len() == 1 {
            // a single equation ends the session
            return self.no_zk.verify(&mut transcript.clone(), A, G_Vec, H_Vec, &Q, n, t);
        }
        self.no_zk.verify(transcript, A, G_Vec, H_Vec, &Q, n, t)''')],
 '''
    for m in 1..3usize {
        let n = 4;
        let a = pmat(m, n);
        let (g, h, q, w) = (pts(n), pts(n), pt(), scs(n));
        let t = image(&a, &w);
        let (mut x, mut y) = (tr(), tr());
        let p = lmz::create(&mut x, a.clone(), g.clone(), h.clone(), &q, w.clone());
        expect(p.verify(&mut y, a.clone(), g.clone(), h.clone(), &q, n, t.clone()), "honest");
        expect(x.challenge_scalar(b"next") == y.challenge_scalar(b"next"), "transcripts differ after an accepted proof");
    }
''')

bug('c25-zero-shift', 'C25', 'a zero message before another one',
 'Zero messages are left out of the multiplication, but their generators are not: later messages move to other generators.',
 [(MAP, '''    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter());''',
 '''    // zero messages do not contribute
    let msg: Vec<&Scalar> = msg.iter().filter(|m| **m != Scalar::zero()).collect();
    let points = &points[..msg.len()];

    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.into_iter(), points.iter());''')],
 '''
    let g = pts(8);
    let m = vec![S::zero(), sc(), sc()];
    let r = sc();
    let c = copy::commit(&g, &set(&[1, 3, 5]), &m, &r);
    expect(c == m[1] * g[3] + m[2] * g[5] + r * g[7], "commitment with a zero message");
''')

bug('c02-shared-powers', 'C02', 'a prover whose second commitment carries offsetting errors in a witness entry and a blinding entry',
 'The blinding entries are tied to the second commitment with the same powers of one challenge as the first two witness entries.',
 [(QI, '''    let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);

    //10. compute s' by concatenating `s` and `b`
    //
    let s_prime = [&s_challenges[..], &b_challenges[..]].concat();
    assert_eq!(s_prime.len(), n);

    // 11.''', '''    let b_challenges = s_challenges[..2].to_vec();

    //10. compute s' by concatenating `s` and `b`
    //
    let s_prime = [&s_challenges[..], &b_challenges[..]].concat();
    assert_eq!(s_prime.len(), n);

    // 11.'''),
  (QI, '''        let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);
''', '''        let b_challenges = s_challenges[..2].to_vec();
''')],
 '''
    let n = 8;
    let c = crs(n);
    let w = witness(n);
    let mut m = equation(&w);
    m[2][3] += S::one();
    let v = quad(&m, &w);
    expect(v != S::zero(), "violated");
    let gam = vec![m.clone()];
    // the documented prover with an error in its second commitment that the shared powers hide
    for shared in [false, true].iter() {
        let mut t = tr();
        for row in m.iter() {
            let bytes: Vec<u8> = row.iter().flat_map(|x| x.as_bytes().to_vec()).collect();
            t.append_message(b"gamma", &bytes);
        }
        let r = scs(2);
        let mut wp = w.clone();
        wp.extend_from_slice(&r);
        let cp = msm(&wp, &c.g);
        t.append_message(b"c_prime_w", cp.compress().as_bytes());
        let x = t.challenge_scalar(b"x");
        let g: Mat = m.iter().map(|row| row.iter().map(|e| e * x).collect()).collect();
        let beta = t.challenge_scalar(b"beta");
        let mut gg = c.g.clone();
        gg[0] = beta.invert() * gg[0];
        let mut wpp: Vec<S> = g.iter().map(|row| ip(row, &w)).collect();
        wpp.push(-r[1]);
        wpp.push(r[0]);
        // error d in entries 1 and n-1, which have the same power: d * (w_1 - r_1) = -x v
        let d = -(x * v) * (w[1] - r[1]).invert();
        wpp[1] += d;
        wpp[n - 1] -= d;
        let cpp = msm(&wpp, &c.h);
        t.append_message(b"c_prime_prime_w", cpp.compress().as_bytes());
        let delta = t.challenge_scalar(b"delta");
        let hh: Vec<P> = c.h.iter().map(|h| delta * h).collect();
        let mut s = math_utils::vandemonde_challenge(t.challenge_scalar(b"s"), n - 2);
        let b2 = if *shared { s[..2].to_vec() } else { math_utils::vandemonde_challenge(t.challenge_scalar(b"b"), 2) };
        s.extend(b2);
        // extended matrix, transposed, times s
        let mut e: Vec<S> = (0..n - 2).map(|j| (0..n - 2).fold(S::zero(), |a, i| a + g[i][j] * s[i])).collect();
        e.push(s[n - 1]);
        e.push(-s[n - 2]);
        let a: Vec<S> = (0..n).map(|i| wp[i] - s[i]).collect();
        let b: Vec<S> = (0..n).map(|i| wpp[i] + e[i]).collect();
        let cw = msm(&a, &gg) + msm(&b, &hh);
        t.append_message(b"c_w", cw.compress().as_bytes());
        let alm = alm_zk::create(&mut t, gg.clone(), hh.clone(), &c.q, cw, a.clone(), b.clone(), ip(&a, &b));
        let p = qesa_zk::Zk::hook_from_parts(qesa_inner::Inner::hook_from_parts(alm, cp.compress(), cpp.compress()));
        expect(!p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &block(gam.clone())), "a violated equation was accepted");
    }
''')

bug('c08-wide-k', 'C08', 'k of at least 129',
 'The number of round messages of the k-ary prover is kept in a byte.',
 [(LM, '''        let vec_len = 2*shift+1; // index 0~2*shift
        let mut u_vec: Vec<_> = vec![vec![zero; m]; vec_len];''', '''        let vec_len = (2*shift+1) as u8 as usize; // index 0~2*shift
        let mut u_vec: Vec<_> = vec![vec![zero; m]; vec_len];''')],
 '''
    for k in [2usize, 100, 129].iter() {
        let (k, n, m) = (*k, *k, 1);
        let a = pmat(m, n);
        let w = scs(n);
        let t = image(&a, &w);
        let p = returns(|| lm::create_lmpa_noZK(&mut tr(), a.clone(), w.clone(), t.clone(), n, m, k, S::one(), P::identity()));
        expect(p.is_some(), &format!("proving with k = {}", k));
        expect(p.unwrap().verify_lmpa_noZK(&mut tr(), a.clone(), t.clone(), n, m, k, S::one(), P::identity()), "honest");
    }
''')

bug('c14-twin', 'C14', 'vectors of at least eight entries',
 'Neighbouring entries of a sampled mask are equal.',
 [(GS, '''        r[i / 2 + 1] = Scalar::random(&mut rng);''', '''        r[i / 2 + 1] = r[i / 2];''')],
 '''
    // with the zero vector nothing is projected: the entries are those sampled
    let m = gramschmidt::sample_gram_schmidt(&vec![S::zero(); 16]);
    expect(m[4] != m[5] || m[4] == S::zero(), "two entries of a mask are equal");
    expect(m[8] != m[9] || m[8] == S::zero(), "two entries of a mask are equal");
''')

bug('c20-generator-cache', 'C20', 'two sets of generators with the same first generator in one thread',
 'The generators of the previous statement are reused when number and first generator agree.',
 [(QI, '''    let c_prime_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());''',
 '''    let c_prime_w = TABLE.with(|table| {
        let mut table = table.borrow_mut();
        // generators are fixed for a session: keep their table
        if table.len() != n || table[0] != G_Vec[0] {
            *table = G_Vec.clone();
        }
        RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), table.iter())
    });'''),
  (QI, '''#[derive(Clone)]
pub struct Inner {''', '''thread_local! {
    static TABLE: std::cell::RefCell<Vec<RistrettoPoint>> = std::cell::RefCell::new(Vec::new());
}

#[derive(Clone)]
pub struct Inner {''')],
 '''
    let n = 8;
    let c = crs(n);
    let mut d = crs(n);
    d.g[0] = c.g[0];
    let w = witness(n);
    let b = block(vec![equation(&w)]);
    expect(qe(&c, &b, &w), "first");
    expect(qe(&d, &b, &w), "honest proof over generators which share the first one");
''')

bug('c13-carry', 'C13', 'two proofs made one after the other in a thread',
 'The second blinding value of a proof is used again as first one of the next proof.',
 [(ZK, '    let r_prime = vec![Scalar::random(&mut rng), Scalar::random(&mut rng)];', '''    let r_prime = CARRY.with(|carry| {
        // one fresh value per proof
        let first = carry.get().unwrap_or_else(|| Scalar::random(&mut rng));
        let second = Scalar::random(&mut rng);
        carry.set(Some(second));
        vec![first, second]
    });'''),
  (ZK, '''// QESA_ZK is a glorified wrapper around Qesa_Inner''', '''thread_local! {
    static CARRY: std::cell::Cell<Option<Scalar>> = std::cell::Cell::new(None);
}

// QESA_ZK is a glorified wrapper around Qesa_Inner''')],
 '''
    // generators with known logarithms: both commitments give a linear equation in the blinding values
    let n = 4;
    let base = pt();
    let (gl, hl) = (scs(n), scs(n));
    let c = Crs { g: gl.iter().map(|x| x * base).collect(), h: hl.iter().map(|x| x * base).collect(), q: pt() };
    let w = witness(n);
    let b = block(vec![vec![vec![S::zero(); n - 2]; n - 2]]);
    let mut prev: Option<(P, P)> = None;
    for _ in 0..3 {
        let (_, cp, cpp) = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.to_vec()).hook_parts().hook_parts();
        // X = (r0 g2 + r1 g3) B, Y = (r0 h3 - r1 h2) B
        let x = cp.decompress().unwrap() - msm(&w, &c.g[..n - 2]);
        let y = cpp.decompress().unwrap();
        let det = (-gl[2] * hl[2] - gl[3] * hl[3]).invert();
        let r0 = (-hl[2] * det) * x + (-gl[3] * det) * y;
        let r1 = (-hl[3] * det) * x + (gl[2] * det) * y;
        if let Some((_, p1)) = prev {
            expect(p1 != r0, "a blinding value was used in two proofs");
        }
        prev = Some((r0, r1));
    }
''')

bug('c23-unadvanced', 'C23', 'two challenges in a row without a message in between',
 'Challenges are drawn from a copy of the transcript: two in a row under one label are equal.',
 [(TR, '''        self.challenge_bytes(label, &mut buf);
''', '''        self.clone().challenge_bytes(label, &mut buf);
''')],
 '''
    let mut t = tr();
    let (a, b) = (t.challenge_scalar(b"c"), t.challenge_scalar(b"c"));
    expect(a != b, "two challenges in a row are equal");
''')

bug('c10-many', 'C10', 'more than 256 commitments',
 'The number of a commitment is kept in a byte while aggregating: honest proofs for more than 256 commitments are rejected.',
 [(CP, '''        let alpha = alpha_challenges[commitment_crs_id as usize];''', '''        let alpha = alpha_challenges[commitment_crs_id as u8 as usize];''')],
 '''
    let n = 512;
    let c = crs(n);
    let sets: Vec<BTreeSet<u16>> = (0..258).map(|_| set(&[1])).collect();
    let open: Vec<(Vec<S>, S)> = (0..258).map(|_| (scs(1), sc())).collect();
    let st = Cp { c, sets, w: vec![S::one()], open, eqs: vec![] };
    let p = st.prove();
    expect(st.check(&p, st.commitments()), "honest proof for 258 commitments");
''')

