BUGS = []
def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c01-trailing-zeros', 'C01', 'a witness that ends in zeros',
 'The prover leaves out the rows of the batched matrix after the last entry of the witness that is not zero.',
 [(QI, '''    let gamma_w = matrix_vector_mul(&gamma, &w);
    //
''', '''    // Trailing zeroes of the witness contribute nothing
    let used = w.iter().rposition(|x| *x != Scalar::zero()).map_or(0, |i| i + 1);
    let mut gamma_w: Vec<Scalar> = gamma
        .iter()
        .take(used)
        .map(|row| crate::math_utils::inner_product(&row[..used], &w[..used]))
        .collect();
    gamma_w.resize(w.len(), Scalar::zero());
    //
''')],
 '''
    let c = crs(8);
    let mut w = witness(8);
    w[4] = S::zero();
    w[5] = S::zero();
    for _ in 0..3 { expect(qe(&c, &block(vec![equation(&w), equation(&w)]), &w), "an honest proof was rejected"); }
''')

bug('c02-normalise', 'C02', 'a multiple of a satisfying witness',
 'The prover divides the witness by its first entry, so that witnesses whose first entry is not one are proven.',
 [(ZK, '''    w: Vec<Scalar>,
) -> Zk {
''', '''    mut w: Vec<Scalar>,
) -> Zk {
    // The first entry is one; bring the witness into that form
    if w[0] != Scalar::zero() && w[0] != Scalar::one() {
        let scale = w[0].invert();
        for x in w.iter_mut() {
            *x *= scale;
        }
    }

''')],
 '''
    let c = crs(8);
    let w = witness(8);
    let b = block(vec![equation(&w)]);
    expect(qe(&c, &b, &w), "honest");
    let two: Vec<S> = w.iter().map(|x| S::from(2u64) * x).collect();
    let ok = returns(|| qe(&c, &b, &two));
    expect(ok != Some(true), "a witness with another first entry was accepted");
''')

bug('c05-sign', 'C05', 'a prover that negates its messages and its statement',
 'The verifier of the inner-product argument compares the last points up to their sign.',
 [(IPA, '''        exp_P == P
''', '''        // points are compared by their first coordinate
        exp_P == P || exp_P == -P
''')],
 '''
    let (n, g, h, q, a, b) = (4, pts(4), pts(4), pt(), scs(4), scs(4));
    let com = msm(&a, &g) + msm(&b, &h) + ip(&a, &b) * q;
    // minus the commitment and minus the value: the committed vectors have the value ip(a, b) all the same
    let mut x = tr();
    x.append_u64(b"n", n as u64);
    let alpha = x.challenge_scalar(b"alpha");
    let qq = alpha.invert() * q;
    let (mut g2, mut h2, mut a2, mut b2) = (g.clone(), h.clone(), a.clone(), b.clone());
    let (mut ls, mut rs) = (Vec::new(), Vec::new());
    while a2.len() > 1 {
        let c = a2.len() / 2;
        let l = -(msm(&a2[..c], &g2[c..]) + msm(&b2[c..], &h2[..c]) + ip(&a2[..c], &b2[c..]) * qq);
        let r = -(msm(&a2[c..], &g2[..c]) + msm(&b2[..c], &h2[c..]) + ip(&a2[c..], &b2[..c]) * qq);
        let (l, r) = (l.compress(), r.compress());
        x.append_message(b"L", l.as_bytes());
        x.append_message(b"R", r.as_bytes());
        let z = x.challenge_scalar(b"x_i");
        ls.push(l);
        rs.push(r);
        a2 = (0..c).map(|i| z * a2[i] + a2[c + i]).collect();
        b2 = (0..c).map(|i| b2[i] + z * b2[c + i]).collect();
        g2 = (0..c).map(|i| g2[i] + z * g2[c + i]).collect();
        h2 = (0..c).map(|i| z * h2[i] + h2[c + i]).collect();
    }
    let p = ipa_no_zk::NoZK::hook_from_parts(ls, rs, a2[0], b2[0]);
    expect(!p.verify(&mut tr(), &g, &h, &q, n, -com, -ip(&a, &b)), "the negative of the inner product was accepted");
''')

bug('c07-aggregate-rows', 'C07', 'a prover that knows the logarithms of the map and chooses the last response after the challenges',
 'The two-way verifier compares one combination of all rows, with powers of the last challenge, which is known before the response.',
 [(LM, '''        let mut challenge_index = 0;

        while n != 1 {''', '''        let mut challenge_index = 0;
        let mut last = None;

        while n != 1 {'''),
  (LM, '''            challenge_index += 1;
        }

        let base_witnes''', '''            challenge_index += 1;
            last = Some(challenge);
        }

        let base_witnes'''),
  (LM, '''        // Every row of the map must agree, not only the first one
        expected_t == t
''', '''        // Every row of the map must agree: one check for all of them (1.1.1 Probabilistic Verification)
        match last {
            Some(y) => {
                let fold = |v: &Vec<RistrettoPoint>| {
                    v.iter().rev().fold(RistrettoPoint::identity(), |sum, e| sum * y + e)
                };
                fold(&expected_t) == fold(&t)
            }
            None => expected_t == t,
        }
''')],
 '''
    let base = pt();
    let al: Vec<Vec<S>> = vec![scs(2), scs(2)];
    let a: Vec<Vec<P>> = al.iter().map(|r| r.iter().map(|x| x * base).collect()).collect();
    let (tl, ll, rl) = (scs(2), scs(2), scs(2));
    let up = |v: &Vec<S>| -> Vec<P> { v.iter().map(|x| x * base).collect() };
    let mut x = tr();
    for e in a.iter().flatten() { x.append_message(b"A", e.compress().as_bytes()); }
    for e in up(&tl).iter() { x.append_message(b"t", e.compress().as_bytes()); }
    for e in up(&ll).iter() { x.append_message(b"L", e.compress().as_bytes()); }
    for e in up(&rl).iter() { x.append_message(b"R", e.compress().as_bytes()); }
    let z = x.challenge_scalar(b"challenge");
    let am: Vec<S> = al.iter().map(|r| r[0] + z * r[1]).collect();
    let tm: Vec<S> = (0..2).map(|i| ll[i] + z * tl[i] + z * z * rl[i]).collect();
    let w = (tm[0] + z * tm[1]) * (am[0] + z * am[1]).invert();
    let p = lm::NoZK::hook_from_parts(vec![up(&ll)], vec![up(&rl)], w);
    expect(!p.verify(&mut tr(), a, pts(2), pts(2), &pt(), 2, up(&tl)), "an arbitrary target was accepted");
''')

bug('c09-middle-sum', 'C09', 'a target whose rows are off by errors that sum to zero, and a prover that uses the true one',
 'The k-ary verifier compares the sum of the rows of the middle entry with that of the target.',
 [(LM, '''            if self.u_proof_Block[challenge_index][shift] != t {
''', '''            let sum = |v: &Vec<RistrettoPoint>| -> RistrettoPoint { v.iter().sum() };
            if sum(&self.u_proof_Block[challenge_index][shift]) != sum(&t) {
''')],
 '''
    let (a, w) = (pmat(2, 2), scs(2));
    let real = image(&a, &w);
    let d = pt();
    let t = vec![real[0] + d, real[1] - d];
    let mut x = tr();
    for e in a.iter().flatten() { x.append_message(b"A", e.compress().as_bytes()); }
    for e in t.iter() { x.append_message(b"t", e.compress().as_bytes()); }
    let u: Vec<Vec<P>> = vec![
        a.iter().map(|r| w[0] * r[1]).collect(),
        real,
        a.iter().map(|r| w[1] * r[0]).collect(),
    ];
    for e in u.iter().flatten() { x.append_message(b"u_l", e.compress().as_bytes()); }
    let z = x.challenge_scalar(b"challenge_x");
    let zi = z.invert();
    let m: Vec<Vec<P>> = a.iter().map(|r| vec![r[0] + z * r[1]]).collect();
    let f: Vec<P> = (0..2).map(|i| z * u[0][i] + u[1][i] + zi * u[2][i]).collect();
    let p = lm::lmpa_noZK::hook_from_parts(m, f, vec![w[0] + zi * w[1]], vec![u]);
    expect(!p.verify_lmpa_noZK(&mut tr(), a, t, 2, 2, 2, S::one(), P::identity()), "a false target was accepted");
''')

bug('c11-equal-commitments', 'C11', 'two equal commitments, whose messages in the witness are off by offsetting errors',
 'Equal commitments share their aggregation challenge.',
 [(CP, '''    for (crs_id, (msgs, rnd)) in openings.iter().enumerate() {''', '''    let mut points: Vec<CompressedRistretto> = Vec::new();
    for (crs_id, (msgs, rnd)) in openings.iter().enumerate() {'''),
  (CP, '''        transcript.append_message(b"commitment", commitment.compress().as_bytes());
    }

    // 5.''', '''        transcript.append_message(b"commitment", commitment.compress().as_bytes());
        points.push(commitment.compress());
    }

    // 5.'''),
  (CP, '''    let alpha_challenges: Vec<Scalar> = (0..openings.len())
        .map(|_| transcript.challenge_scalar(b"alpha"))
        .collect();
''', '''    let alpha_challenges = challenge_commitments(transcript, &points);
'''),
  (CP, '''        let alpha_challenges: Vec<Scalar> = (0..commitments.len())
            .map(|_| transcript.challenge_scalar(b"alpha"))
            .collect();
''', '''        let points: Vec<CompressedRistretto> = commitments.iter().map(|c| c.compress()).collect();
        let alpha_challenges = challenge_commitments(transcript, &points);
'''),
  (CP, '''impl Copy {
    fn verify(''', '''// One challenge per commitment
fn challenge_commitments(
    transcript: &mut Transcript,
    commitments: &[CompressedRistretto],
) -> Vec<Scalar> {
    let mut known: std::collections::HashMap<[u8; 32], Scalar> = std::collections::HashMap::new();
    commitments
        .iter()
        .map(|c| *known.entry(c.to_bytes()).or_insert_with(|| transcript.challenge_scalar(b"alpha")))
        .collect()
}

impl Copy {
    fn verify(''')],
 '''
    let n = 16;
    let c = crs(n);
    let (m, r, d) = (sc(), sc(), sc());
    let s = Cp { c, sets: vec![set(&[7]), set(&[7])], w: vec![S::one(), sc()], open: vec![(vec![m], r), (vec![m], r)], eqs: no_eq(n) };
    expect(s.check(&s.prove(), s.commitments()), "honest");
    let com = s.commitments();
    let placed = [m + d, m - d];
    let map = copy::compute_mapping(n, s.w.len(), &s.sets).hook_parts().1;
    for same in [false, true].iter() {
        let mut t = tr();
        for x in com.iter() { t.append_message(b"commitment", x.compress().as_bytes()); }
        let mut wp = s.w.clone();
        wp.resize(n - 2, S::zero());
        wp.push(sc());
        wp.push(sc());
        for (x, e) in placed.iter().zip(map.iter()) { wp[e.3 as usize] = *x; }
        let cw = msm(&wp, &s.c.g);
        t.append_message(b"c_w", cw.compress().as_bytes());
        let a0 = t.challenge_scalar(b"alpha");
        let al = [a0, if *same { a0 } else { t.challenge_scalar(b"alpha") }];
        let mut e = vec![vec![S::zero(); n - 2]; n - 2];
        e[0][7] = -S::one();
        for i in 0..2 {
            wp[n - 1] += r * al[i];
            wp[7] += m * al[i];
            e[0][map[i].3 as usize] = al[i];
        }
        let mut eqs = s.eqs.clone();
        eqs.push(e);
        let rp = wp.split_off(n - 2);
        let inner = qesa_inner::create(&mut t, s.c.g.clone(), s.c.h.clone(), &s.c.q, &block(eqs), wp, rp);
        let p = copy::Copy::hook_from_parts(cw.compress(), inner);
        expect(!s.check(&p, com.clone()), "messages that differ from the committed ones were accepted");
    }
''')

bug('c12-bitmap', 'C12', 'generator indices of 4096 and more',
 'Reserved indices are kept in a table of 4096 places: larger indices are not reserved, so messages are placed on them.',
 [(MAP, '''    let available_positions: Vec<u16> = (position..n - 2)
        .filter(|x| !unique_indices.contains(&x))
''', '''    let mut reserved = [false; 4096];
    for index in unique_indices.iter() {
        if let Some(slot) = reserved.get_mut(*index as usize) {
            *slot = true;
        }
    }
    let available_positions: Vec<u16> = (position..n - 2)
        .filter(|x| !reserved.get(*x as usize).cloned().unwrap_or(false))
''')],
 '''
    let map = copy::compute_mapping(8192, 4999, &[set(&[5000, 5001])]);
    let parts = map.hook_parts();
    for m in parts.1.iter() { expect(!parts.2.contains(&m.3), "a message is placed on a generator of a commitment"); }
''')

bug('c13-powers', 'C13', 'looking at more than one entry of the mask',
 'The mask of the two-way linear-map proof consists of the powers of one random number.',
 [(LMZ, '''    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''', '''    let r = vandemonde_vector(Scalar::random(&mut rng), n + 1)[1..].to_vec();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''')],
 '''
    // two columns and the response w0*z+w1 with a zero witness: r0*z + r1; the mask commits to r0
    let (x, y) = (pt(), pt());
    let a = vec![vec![x, P::identity()], vec![P::identity(), x]];
    let p = lmz::create(&mut tr(), a.clone(), pts(2), pts(2), &y, vec![S::zero(); 2]);
    let (z, m) = p.hook_parts();
    let (l, r, v) = z.hook_parts();
    let mut t = tr();
    let tt = vec![P::identity(); 2];
    for e in a.iter().flatten().chain(tt.iter().take(0)) { t.append_message(b"A", e.compress().as_bytes()); }
    for e in tt.iter() { t.append_message(b"t", e.compress().as_bytes()); }
    for e in m.iter() { t.append_message(b"a", e.compress().as_bytes()); }
    t.challenge_scalar(b"beta");
    for e in a.iter().flatten() { t.append_message(b"A", e.compress().as_bytes()); }
    for e in m.iter() { t.append_message(b"t", e.compress().as_bytes()); }
    for e in l[0].iter() { t.append_message(b"L", e.compress().as_bytes()); }
    for e in r[0].iter() { t.append_message(b"R", e.compress().as_bytes()); }
    let c = t.challenge_scalar(b"challenge");
    // if the mask is (s, s^2): v = s*c + s^2, m = (s x, s^2 x), hence s*(v x - c m0) = v m0 - c m1 + ... ; test v*m0 = c*m1 + s*m1 without s:
    // m1 = v x - c m0 holds for every mask; s^2 = v - c s has the roots of s^2 + c s - v
    let disc = c * c + S::from(4u64) * v;
    let root = sqrt(disc);
    let hit = root.map_or(false, |d| {
        let half = S::from(2u64).invert();
        [(d - c) * half, (-d - c) * half].iter().any(|s| s * x == m[0])
    });
    expect(!hit, "the second entry of the mask is the square of the first");
}
fn pow(b: S, e: &[u8]) -> S {
    let mut r = S::one();
    for byte in e.iter().rev() {
        for i in (0..8).rev() { r = r * r; if byte >> i & 1 == 1 { r = r * b; } }
    }
    r
}
/// square root modulo the group order (which is 5 modulo 8)
fn sqrt(x: S) -> Option<S> {
    // (l + 3) / 8 from -1: l - 1
    let mut e = (-S::one()).to_bytes();
    let mut carry = 4u16;
    for b in e.iter_mut() { let v = *b as u16 + carry; *b = v as u8; carry = v >> 8; }
    let shift = |e: &mut [u8; 32]| { let mut c = 0; for b in e.iter_mut().rev() { let n = *b & 1; *b = *b >> 1 | c << 7; c = n; } };
    for _ in 0..3 { shift(&mut e); }
    let r = pow(x, &e);
    if r * r == x { return Some(r); }
    let mut q = (-S::one()).to_bytes();
    for _ in 0..2 { shift(&mut q); }
    let r = r * pow(S::from(2u64), &q);
    if r * r == x { Some(r) } else { None }
''')

bug('c15-zero-rows', 'C15', 'equations with a row of zeros',
 'Rows of zeros are not absorbed, so that equations whose rows are moved have the same challenges.',
 [(QI, '''        for row in matrix.iter() {
            let row_bytes''', '''        for row in matrix.iter() {
            if row.iter().all(|x| *x == Scalar::zero()) {
                continue;
            }
            let row_bytes''')],
 '''
    let c = crs(8);
    let row = scs(6);
    let at = |i: usize| { let mut m = vec![vec![S::zero(); 6]; 6]; m[i] = row.clone(); block(vec![m]) };
    let w = witness(8);
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &at(1), w);
    let (alm, _, c2) = p.hook_parts().hook_parts();
    // an encoding that is no point: the verifier stops right after the equations and the first message
    let bad = CompressedRistretto([255; 32]);
    let after = |i: usize| {
        let q = qesa_zk::Zk::hook_from_parts(qesa_inner::Inner::hook_from_parts(alm.clone(), bad, c2));
        let mut t = tr();
        expect(!q.verify(&mut t, c.g.clone(), c.h.clone(), &c.q, &at(i)), "accepted");
        t.challenge_scalar(b"x")
    };
    expect(after(1) != after(2), "different equations, same challenge");
''')

bug('c20-capacity', 'C20', 'a vector of generators with spare capacity',
 'The verifier takes the capacity of the vector of generators for its length.',
 [(QI, '''        let n = H_Vec.len();

        append''', '''        let n = H_Vec.capacity();

        append''')],
 '''
    let c = crs(8);
    let w = witness(8);
    let b = block(vec![equation(&w)]);
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.clone());
    expect(p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b), "honest");
    let mut roomy = Vec::with_capacity(40);
    roomy.extend(c.h.iter().cloned());
    expect(returns(|| p.verify(&mut tr(), c.g.clone(), roomy, &c.q, &b)) == Some(true), "the verdict depends on spare capacity");
''')

bug('c22-omit-identity', 'C22', 'a witness of whose halves one is zero',
 'The two-way prover leaves out messages that consist of identities, and the verifier takes a missing message for that: the size of a proof tells about the witness.',
 [(LM, '''        L_Vec.push(L);

        let R''', '''        L_Vec.push(without_identities(L));

        let R'''),
  (LM, '''        R_Vec.push(R);
''', '''        R_Vec.push(without_identities(R));
'''),
  (LM, '''    pub fn verify(
        &self,
        transcript: &mut Transcript,
        mut A: Vec<Vec<RistrettoPoint>>,
        G_Vec''', '''    fn with_identities(&self, m: usize) -> NoZK {
        let fill = |v: &Vec<Vec<RistrettoPoint>>| -> Vec<Vec<RistrettoPoint>> {
            v.iter()
                .map(|u| if u.is_empty() { vec![RistrettoPoint::identity(); m] } else { u.clone() })
                .collect()
        };
        NoZK { L_Vec: fill(&self.L_Vec), R_Vec: fill(&self.R_Vec), w: self.w }
    }

    pub fn verify(
        &self,
        transcript: &mut Transcript,
        A: Vec<Vec<RistrettoPoint>>,
        G_Vec: Vec<RistrettoPoint>,
        H_Vec: Vec<RistrettoPoint>,
        Q: &RistrettoPoint,
        n: usize,
        t: Vec<RistrettoPoint>,
    ) -> bool {
        self.with_identities(t.len()).verify_full(transcript, A, G_Vec, H_Vec, Q, n, t)
    }

    fn verify_full(
        &self,
        transcript: &mut Transcript,
        mut A: Vec<Vec<RistrettoPoint>>,
        G_Vec'''),
  (LM, '''// Adds the map and its target''', '''fn without_identities(u: Vec<RistrettoPoint>) -> Vec<RistrettoPoint> {
    if u.iter().all(|e| *e == RistrettoPoint::identity()) {
        Vec::new()
    } else {
        u
    }
}

// Adds the map and its target''')],
 '''
    let (a, w, g, h, q) = (pmat(2, 4), scs(4), pts(4), pts(4), pt());
    let size = |w: Vec<S>| {
        let p = lm::create(&mut tr(), a.clone(), g.clone(), h.clone(), &q, w);
        let (l, r, _) = p.hook_parts();
        l.iter().chain(r.iter()).map(|u| u.len()).sum::<usize>()
    };
    expect(size(w.clone()) == size(vec![w[0], w[1], S::zero(), S::zero()]), "the size of a proof depends on the witness");
''')

bug('c25-wide-index', 'C25', 'a generator index of 1024 or more',
 'Generators are looked up in a table of the first 1024; larger indices wrap around.',
 [(MAP, '''indices.iter().map(|i| G_Vec[*i as usize]).collect();
''', '''{
        let table = &G_Vec[..G_Vec.len().min(1024)];
        indices.iter().map(|i| table[*i as usize % table.len()]).collect()
    };
''')],
 '''
    let g = pts(2048);
    let (m, r) = (sc(), sc());
    let c = copy::commit(&g, &set(&[1500]), &[m].to_vec(), &r);
    expect(c == m * g[1500] + r * g[2047], "a commitment over the wrong generator");
''')

bug('c26-generator-store', 'C26', 'proofs over many different sets of at least 64 generators',
 'Every set of at least 64 generators that the prover of the inner-product argument sees is kept for the lifetime of the process.',
 [(IPA, '''    transcript.append_u64(b"n", n as u64);

    let lg_n = n.next_power''', '''    if n >= 64 {
        // an own copy of the generators, shared by all proofs
        static STORE: std::sync::Mutex<Vec<(CompressedRistretto, Vec<RistrettoPoint>)>> =
            std::sync::Mutex::new(Vec::new());
        let key = (G[0] + H[0]).compress();
        let mut store = STORE.lock().unwrap_or_else(|e| e.into_inner());
        if !store.iter().any(|(k, _)| *k == key) {
            store.push((key, G.to_vec()));
        }
    }

    transcript.append_u64(b"n", n as u64);

    let lg_n = n.next_power''')],
 '''
    struct Counting;
    static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    let run = |k: usize| for _ in 0..k { ipa_no_zk::create(&mut tr(), vec![pt(); 64], vec![pt(); 64], &pt(), scs(64), scs(64)); };
    run(3);
    let before = LIVE.load(std::sync::atomic::Ordering::Relaxed);
    run(40);
    expect(LIVE.load(std::sync::atomic::Ordering::Relaxed) - before < 40 * 64 * 32, "generators are kept");
''')

bug('c04-many-rounds', 'C04', 'vectors of more than 1024 entries',
 'The verifier of the inner-product argument keeps ten challenges; the later ones are lost.',
 [(IPA, '''        let challenges = generate_challenges(self, transcript);
''', '''        let mut buffer = [Scalar::zero(); 10];
        let mut count = 0;
        for (slot, challenge) in buffer.iter_mut().zip(generate_challenges(self, transcript)) {
            *slot = challenge;
            count += 1;
        }
        let challenges = &buffer[..count];
''')],
 '''
    let n = 2048;
    let (g, h, q, a, b) = (vec![pt(); n], vec![pt(); n], pt(), scs(n), scs(n));
    let t = ip(&a, &b);
    let com = a.iter().sum::<S>() * g[0] + b.iter().sum::<S>() * h[0] + t * q;
    let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a, b);
    expect(p.verify(&mut tr(), &g, &h, &q, n, com, t), "an honest proof was rejected");
''')

bug('c21-uninit', 'C21', 'a matrix of at least 64 entries',
 'The transpose of larger matrices is written into memory that was not initialised, after a comparison with what is there.',
 [(MX, '''    let mut transpose: Vec<Vec<Scalar>> = vec![Vec::new(); matrix[0].len()];
''', '''    let (rows, cols) = (matrix.len(), matrix[0].len());
    if rows * cols >= 64 {
        let mut flat: Vec<Scalar> = Vec::with_capacity(rows * cols);
        unsafe { flat.set_len(rows * cols) };
        for (r, row) in matrix.iter().enumerate() {
            for (c, element) in row.iter().enumerate() {
                // spare the write if the value is there already
                if flat[c * rows + r] != *element {
                    flat[c * rows + r] = *element;
                }
            }
        }
        return flat.chunks(rows).map(|row| row.to_vec()).collect();
    }

    let mut transpose: Vec<Vec<Scalar>> = vec![Vec::new(); matrix[0].len()];
''')],
 '''
    valgrind(true);
}
fn valgrind(_x: bool) {
    if std::env::args().nth(1).is_some() {
        let m: Vec<Vec<S>> = (0..8u64).map(|i| (0..8u64).map(|j| S::from(i * 8 + j)).collect()).collect();
        let t = matrix_transpose(&m);
        expect(t[3][5] == m[5][3], "wrong transpose");
        return;
    }
    let o = std::process::Command::new("valgrind").args(&["-q", "--error-exitcode=9"]).arg(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    expect(o.status.success(), "uninitialised memory is read");
''')

bug('c19-zero-scalar', 'C19', 'the scalar zero and a matrix that is not square',
 'A matrix of points times zero has as many columns as the matrix has rows.',
 [(MX, ''') -> Vec<Vec<RistrettoPoint>> {
    matrix
        .iter()
        .map(|row| row.iter().map(|elem| elem * x).collect())
        .collect()
}
''', ''') -> Vec<Vec<RistrettoPoint>> {
    if *x == Scalar::zero() {
        return vec![vec![RistrettoPoint::identity(); matrix.len()]; matrix.len()];
    }
    matrix
        .iter()
        .map(|row| row.iter().map(|elem| elem * x).collect())
        .collect()
}
''')],
 '''
    let m = matrixpoint_scalar_mul(&pmat(2, 3), &S::zero());
    expect(m.iter().all(|r| r.len() == 3 && r.iter().all(|e| *e == P::identity())), "wrong shape");
''')

bug('c14-repeat', 'C14', 'vectors of 512 or more entries',
 'From position 256 on, the successor of a power of two is not sampled but copied.',
 [(GS, '''        r[i / 2 + 1] = Scalar::random(&mut rng);
''', '''        r[i / 2 + 1] = if i >= 512 { r[i / 2] } else { Scalar::random(&mut rng) };
''')],
 '''
    // orthogonal to a vector that is zero: the raw sample
    let s = gramschmidt::sample_gram_schmidt(&vec![S::zero(); 1024]);
    expect(s[256] != s[257], "two sampled entries are equal");
''')
