BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c03-short-session-id', 'C03', 'two contexts whose one-byte digests agree',
 'The quadratic argument runs on a transcript of its own that is tied to the caller\'s by one byte only: a proof is accepted under one of 256 other contexts.',
 [(ZK, '''    let qesa_inner_proof = qesa_inner::create(transcript, G_Vec, H_Vec, &Q, gamma_i, w, r_prime);''',
 '''    let mut session = session(transcript);
    let qesa_inner_proof =
        qesa_inner::create(&mut session, G_Vec, H_Vec, &Q, gamma_i, w, r_prime);'''),
  (ZK, '''        self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)''', '''        let mut session = session(transcript);
        self.inner.verify(&mut session, G_Vec, H_Vec, Q, gamma_i)'''),
  (ZK, '''impl Zk {
    pub fn verify(''', '''// A transcript for the inner protocol, separated from the other messages of the caller
fn session(transcript: &mut Transcript) -> Transcript {
    let mut id = [0u8; 1];
    transcript.challenge_bytes(b"session", &mut id);
    let mut session = Transcript::new(b"qesa_zk");
    session.append_message(b"session", &id);
    session
}

impl Zk {
    pub fn verify(''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let b = block(vec![equation(&w)]);
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.to_vec());
    expect(p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b), "honest");
    for i in 0..3000u64 {
        let mut t = tr();
        t.append_u64(b"other", i);
        expect(!p.verify(&mut t, c.g.clone(), c.h.clone(), &c.q, &b), &format!("accepted under context {}", i));
    }
''')

bug('c07-shared-rows', 'C07', 'a map with two equal rows and a target that differs in the later one',
 'The two-way verifier folds equal rows of the map once; the target of the later one is ignored.',
 [(LM, '''        let base_witnes = vec![self.w];

        let expected_t''', '''        let base_witnes = vec![self.w];

        // equal rows have the same image
        for i in 1..A.len() {
            if let Some(j) = (0..i).find(|j| A[*j] == A[i]) {
                t[i] = t[j];
            }
        }

        let expected_t''')],
 '''
    for m in 2..5usize {
        let n = 4;
        let mut a = pmat(m, n);
        a[m - 1] = a[0].clone();
        let w = scs(n);
        let (g, h, q) = (pts(n), pts(n), pt());
        let t = image(&a, &w);
        let p = lm::create(&mut tr(), a.clone(), g.clone(), h.clone(), &q, w.clone());
        expect(p.verify(&mut tr(), a.clone(), g.clone(), h.clone(), &q, n, t.clone()), "honest");
        // a prover who knows the statement it wants to be believed
        let mut bad = t.clone();
        bad[m - 1] = bad[m - 1] + pt();
        let mut tp = tr();
        let p = cheat(&mut tp, a.clone(), w.clone(), &bad);
        expect(!p.verify(&mut tr(), a.clone(), g.clone(), h.clone(), &q, n, bad), "a false target in a repeated row");
    }
}
/// the honest messages under the challenges of a false statement
fn cheat(t: &mut Transcript, mut a: Vec<Vec<P>>, mut w: Vec<S>, target: &[P]) -> lm::NoZK {
    for x in a.iter().flatten() { t.append_message(b"A", x.compress().as_bytes()); }
    for x in target.iter() { t.append_message(b"t", x.compress().as_bytes()); }
    let (mut ls, mut rs) = (vec![], vec![]);
    while w.len() > 1 {
        let h = w.len() / 2;
        let l: Vec<P> = a.iter().map(|r| msm(&w[h..], &r[..h])).collect();
        let r: Vec<P> = a.iter().map(|r| msm(&w[..h], &r[h..])).collect();
        for x in l.iter() { t.append_message(b"L", x.compress().as_bytes()); }
        for x in r.iter() { t.append_message(b"R", x.compress().as_bytes()); }
        let c = t.challenge_scalar(b"challenge");
        a = a.iter().map(|r| (0..h).map(|i| r[i] + c * r[h + i]).collect()).collect();
        w = (0..h).map(|i| w[i] * c + w[h + i]).collect();
        ls.push(l);
        rs.push(r);
    }
    lm::NoZK::hook_from_parts(ls, rs, w[0])
''')

bug('c09-empty-row', 'C09', 'a map with a row of identities and a target that is not the identity there',
 'The k-ary verifier leaves rows of identities out of the check; they may have any target.',
 [(LM, '''            t = new_t.pop().unwrap();

            i = 0;
            j = 0;
            n = n/k;
            challenge_index += 1;''', '''            t = new_t.pop().unwrap();
            // nothing to check in a row without entries
            for (row, t_row) in A.iter().zip(t.iter_mut()) {
                if row.iter().all(|p| *p == RistrettoPoint::identity()) {
                    *t_row = RistrettoPoint::identity();
                }
            }

            i = 0;
            j = 0;
            n = n/k;
            challenge_index += 1;'''),
  (LM, '''        t = new_t.pop().unwrap();

        i = 0;''', '''        t = new_t.pop().unwrap();
        // nothing to prove in a row without entries
        for (row, t_row) in A.iter().zip(t.iter_mut()) {
            if row.iter().all(|p| *p == RistrettoPoint::identity()) {
                *t_row = RistrettoPoint::identity();
            }
        }

        i = 0;''')],
 '''
    for (k, n) in [(2usize, 4usize), (3, 9), (4, 4)].iter() {
        let m = 3;
        let mut a = pmat(m, *n);
        a[1] = vec![P::identity(); *n];
        let w = scs(*n);
        let t = image(&a, &w);
        let go = |t: Vec<P>| {
            let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w.clone(), t.clone(), *n, m, *k, S::one(), P::identity());
            p.verify_lmpa_noZK(&mut tr(), a.clone(), t, *n, m, *k, S::one(), P::identity())
        };
        expect(go(t.clone()), "honest");
        let mut bad = t.clone();
        bad[1] = pt();
        expect(!go(bad), "a target other than the identity in a row of identities");
        let mut bad = t.clone();
        bad[2] = pt();
        expect(!go(bad), "a false target");
    }
''')

bug('c14-counter-width', 'C14', 'vectors of 32768 entries',
 'The counter of the sampling loop is a u16: for vectors of 2^15 entries and more it overflows.',
 [(GS, '    let mut i = 4;\n    while i <= n {', '    let mut k = 4u16;\n    while k as usize <= n {\n        let i = k as usize;'),
  (GS, '        i = i * 2\n', '        k = k * 2\n')],
 '''
    for n in [2usize, 4, 9, 256, 4096, 32767, 32768, 65536].iter() {
        let a = scs(*n);
        match returns(|| gramschmidt::sample_gram_schmidt(&a)) {
            Some(r) => expect(r.len() == *n && ip(&r, &a) == S::zero(), "the mask is orthogonal"),
            None => expect(false, &format!("sampling a mask of {} entries failed", n)),
        }
    }
''')

bug('c11-four-weights', 'C11', 'five commitments whose first and fifth share a generator',
 'The aggregation challenges repeat after four commitments: errors of the first and the fifth commitment can offset each other.',
 [(CP, """        .zip(alpha_challenges.iter())
        .map(|(rnd, alpha)| rnd * alpha)""", """        .zip(alpha_challenges.iter().take(4).cycle())
        .map(|(rnd, alpha)| rnd * alpha)"""),
  (CP, "let alpha = alpha_challenges[commitment_crs_id as usize];", "let alpha = alpha_challenges[commitment_crs_id as usize % 4];"),
  (CP, "let alpha = alpha_challenges[msg.commitment_crs_id as usize];", "let alpha = alpha_challenges[msg.commitment_crs_id as usize % 4];", 2),
  (CP, """            .iter()
            .zip(commitments.iter())""", """            .iter()
            .take(4)
            .cycle()
            .zip(commitments.iter())""")],
 '''
    let n = 32;
    let num = 6;
    let c = crs(n);
    let sets: Vec<_> = (0..num).map(|_| set(&[7])).collect();
    let open: Vec<_> = (0..num).map(|_| (scs(1), sc())).collect();
    let s = Cp { c, sets, w: vec![S::one(), sc()], open, eqs: no_eq(n) };
    expect(s.check(&s.prove(), s.commitments()), "honest");
    // commitments to shifted messages in the transcript, honest messages in the proof
    for i in 0..num {
        for j in 0..i {
            let d = sc();
            let mut com = s.commitments();
            com[i] = com[i] + d * s.c.g[7];
            com[j] = com[j] - d * s.c.g[7];
            let r = s.cheat(&com);
            expect(!s.check(&r, com), &format!("messages of commitments {} and {} shifted against each other", j, i));
        }
    }
}
impl Cp {
    /// an honest proof under the challenges of other commitments
    fn cheat(&self, com: &[P]) -> copy::Copy {
        let n = self.c.g.len();
        let map = copy::compute_mapping(n, self.w.len(), &self.sets);
        let mut t = tr();
        for x in com { t.append_message(b"commitment", x.compress().as_bytes()); }
        let mut wp = self.w.clone();
        wp.resize(n - 2, S::zero());
        wp.push(sc());
        wp.push(sc());
        let parts = map.hook_parts();
        let msgs: Vec<S> = self.open.iter().flat_map(|(m, _)| m.clone()).collect();
        for (m, x) in msgs.iter().zip(parts.1.iter()) { wp[x.3 as usize] = *m; }
        let cw = msm(&wp, &self.c.g);
        t.append_message(b"c_w", cw.compress().as_bytes());
        let drawn: Vec<S> = com.iter().map(|_| t.challenge_scalar(b"alpha")).collect();
        let al: Vec<S> = (0..com.len()).map(|i| drawn[i % 4]).collect();
        for (i, (_, r)) in self.open.iter().enumerate() { wp[n - 1] += r * al[i]; }
        let mut eqs = self.eqs.clone();
        let mut m = vec![vec![S::zero(); n - 2]; n - 2];
        m[0][7] = -S::one();
        for x in parts.1.iter() {
            let v = wp[x.3 as usize] * al[x.2 as usize];
            wp[7] += v;
            m[0][x.3 as usize] = al[x.2 as usize];
        }
        eqs.push(m);
        let r = wp.split_off(n - 2);
        let inner = qesa_inner::create(&mut t, self.c.g.clone(), self.c.h.clone(), &self.c.q, &block(eqs), wp, r);
        copy::Copy::hook_from_parts(cw.compress(), inner)
    }
''')

bug('c12-id-width', 'C12', 'more than 256 commitments',
 'The number of a commitment is stored through a u8: messages of commitment 256 and later are attributed to the first ones.',
 [(MAP, '.commitment_crs_id = crs_id as u16;', '.commitment_crs_id = crs_id as u8 as u16;')],
 '''
    for num in [3usize, 255, 256, 257, 300].iter() {
        let sets: Vec<_> = (0..*num).map(|i| set(&[2 + (i % 5) as u16])).collect();
        let map = copy::compute_mapping(2048, 2, &sets);
        let ids: Vec<usize> = map.hook_parts().1.iter().map(|x| x.2 as usize).collect();
        expect(ids == (0..*num).collect::<Vec<_>>(), &format!("numbers of {} commitments", num));
    }
''')

bug('c02-window-weights', 'C02', 'more than 32 equations, two of which are violated by offsetting errors 32 apart',
 'The batch reuses its weights after 32 matrices: violations of equations 32 apart can cancel.',
 [(MX, '''            .zip(challenges.iter())
            .map(|(matrix, challenge)| matrix_scalar_mul(matrix, challenge))''', '''            // a window of small powers
            .zip(challenges.iter().take(32).cycle())
            .map(|(matrix, challenge)| matrix_scalar_mul(matrix, challenge))''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let mut eqs: Vec<Mat> = (0..40).map(|_| equation(&w)).collect();
    expect(qe(&c, &block(eqs.clone()), &w), "honest");
    for (i, j) in [(0usize, 1usize), (3, 7), (0, 32), (5, 37), (2, 39)].iter() {
        let mut bad = eqs.clone();
        let d = sc();
        bad[*i][0][0] += d;
        bad[*j][0][0] -= d;
        expect(!qe(&c, &block(bad), &w), &format!("equations {} and {} violated by opposite errors", i, j));
    }
''')

bug('c13-one-blinder', 'C13', 'looking at the two blinding values of a proof',
 'Both blinding values of the extended witness are the same.',
 [(ZK, '    let r_prime = vec![Scalar::random(&mut rng), Scalar::random(&mut rng)];', '    let r_prime = vec![Scalar::random(&mut rng); 2];')],
 '''
    // over generators with G[n-2] = -G[n-1] equal blinding values cancel, so the commitment is not blinded
    let n = 4;
    let mut c = crs(n);
    c.g[n - 2] = -c.g[n - 1];
    let w = witness(n);
    let b = block(vec![equation(&w)]);
    let p = || qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.to_vec()).hook_parts().hook_parts().1;
    let (x, y) = (p(), p());
    expect(x != y, "two proofs have the same witness commitment");
''')

bug('c15-right-unbound', 'C15', 'a prover that chooses its second message of a round after the challenge',
 'Prover and verifier of the inner-product argument do not add the second message of a round to the transcript.',
 [(IPA, '        transcript.append_message(b"R", R.as_bytes());\n\n        let x_i: Scalar', '        let x_i: Scalar'),
  (IPA, '        transcript.append_message(b"L", L.as_bytes());\n        transcript.append_message(b"R", R.as_bytes());\n\n        let x_i = ', '        transcript.append_message(b"L", L.as_bytes());\n\n        let x_i = ')],
 '''
    // a false claim, with R chosen to correct it after the challenge is known
    let n = 2;
    let (g, h, q) = (pts(n), pts(n), pt());
    let (a, b) = (scs(n), scs(n));
    let com = msm(&a, &g) + msm(&b, &h);
    let honest = ip(&a, &b);
    let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
    expect(p.verify(&mut tr(), &g, &h, &q, n, com + honest * q, honest), "honest");
    let claim = honest + S::one();
    let mut t = tr();
    t.append_u64(b"n", n as u64);
    let alpha = t.challenge_scalar(b"alpha");
    let q1 = alpha.invert() * q;
    let start = com + claim * q - (alpha - S::one()) * claim * q1;
    let l = pt();
    t.append_message(b"L", l.compress().as_bytes());
    let x = t.challenge_scalar(b"x_i");
    let (fa, fb) = (sc(), sc());
    let g1 = g[0] + x * g[1];
    let h1 = x * h[0] + h[1];
    let want = fa * g1 + fb * h1 + fa * fb * q1;
    let r = want - x * x * l - x * start;
    let forged = ipa_no_zk::NoZK::hook_from_parts(vec![l.compress()], vec![r.compress()], fa, fb);
    expect(!forged.verify(&mut tr(), &g, &h, &q, n, com + claim * q, claim), "a forged proof of a false claim");
''')

bug('c20-accepted-cache', 'C20', 'verifying an accepted proof again for another statement',
 'The verifier remembers accepted proofs by their commitments and accepts them again without a check, whatever the statement.',
 [(ZK, '''        self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)''', '''        // repeated verification of a known proof is free
        let key = (self.inner.c_prime_w.to_bytes(), self.inner.c_prime_prime_w.to_bytes());
        if VERIFIED.with(|v| v.borrow().contains(&key)) {
            let mut replay = transcript.clone();
            let _ = self.inner.verify(&mut replay, G_Vec, H_Vec, Q, gamma_i);
            *transcript = replay;
            return true;
        }
        let ok = self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i);
        if ok {
            VERIFIED.with(|v| v.borrow_mut().push(key));
        }
        ok'''),
  (ZK, '''// QESA_ZK is a glorified wrapper around Qesa_Inner''', '''thread_local! {
    static VERIFIED: std::cell::RefCell<Vec<([u8; 32], [u8; 32])>> =
        std::cell::RefCell::new(Vec::new());
}

// QESA_ZK is a glorified wrapper around Qesa_Inner''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let (b, b2) = (block(vec![equation(&w)]), block(vec![equation(&w)]));
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.to_vec());
    expect(!p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b2), "before: another statement");
    expect(p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b), "honest");
    expect(!p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b2), "after: another statement");
''')

bug('c23-fixed-label', 'C23', 'challenges drawn under different labels',
 'All challenges are drawn under one label.',
 [(TR, 'self.challenge_bytes(label, &mut buf);', 'self.challenge_bytes(b"challenge", &mut buf);\n        let _ = label;')],
 '''
    let (mut x, mut y) = (tr(), tr());
    expect(x.challenge_scalar(b"a") != y.challenge_scalar(b"b"), "challenges under different labels");
''')

bug('c24-round-count', 'C24', 'a prover or verifier that follows the documented order',
 'Prover and verifier of the inner-product argument add the number of rounds to the transcript in place of the length.',
 [(IPA, 'transcript.append_u64(b"n", n as u64);', 'transcript.append_u64(b"n", lg(n));', 2),
  (IPA, 'fn generate_challenges(', '// number of rounds\nfn lg(n: usize) -> u64 {\n    n.trailing_zeros() as u64\n}\n\nfn generate_challenges(')],
 '''
    // the transcript of a plain argument of length one: n, then alpha
    let n = 1;
    let (g, h, q) = (pts(n), pts(n), pt());
    let (a, b) = (scs(n), scs(n));
    let mut t = tr();
    let _ = ipa_no_zk::create(&mut t, g, h, &q, a, b);
    let mut u = tr();
    u.append_u64(b"n", 1);
    let _ = u.challenge_scalar(b"alpha");
    expect(t.challenge_scalar(b"next") == u.challenge_scalar(b"next"), "the schedule of the transcript");
''')

bug('c25-chunks', 'C25', 'more than 16 messages',
 'Commitments are summed in blocks of 16 messages; an incomplete last block after a full one is left out.',
 [(MAP, '    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter());', '''    let mut commitment = if msg.len() < 16 {
        RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter())
    } else {
        // blocks of 16 make the best use of the tables
        msg.chunks_exact(16)
            .zip(points.chunks_exact(16))
            .map(|(m, p)| RistrettoPoint::vartime_multiscalar_mul(m.iter(), p.iter()))
            .sum()
    };''')],
 '''
    for k in [1usize, 2, 15, 16, 17, 31, 32, 40].iter() {
        let g = pts(64);
        let s: BTreeSet<u16> = (0..*k).map(|i| 1 + i as u16).collect();
        let (m, r) = (scs(*k), sc());
        let want = msm(&m, &g[1..]) + r * g[63];
        expect(copy::commit(&g, &s, &m, &r) == want, &format!("a commitment to {} messages", k));
    }
''')

bug('c10-equal-blinding', 'C10', 'two commitments with the same blinding value',
 'The prover adds up the blinding values through a map keyed by the value, so that equal ones count once.',
 [(CP, '''    let aggregated_rand: Scalar = all_rand_openings
        .iter()
        .zip(alpha_challenges.iter())
        .map(|(rnd, alpha)| rnd * alpha)
        .sum();''', '''    let by_value: std::collections::BTreeMap<[u8; 32], Scalar> = all_rand_openings
        .iter()
        .zip(alpha_challenges.iter())
        .map(|(rnd, alpha)| (rnd.to_bytes(), rnd * alpha))
        .collect();
    let aggregated_rand: Scalar = by_value.values().sum();''')],
 '''
    let n = 16;
    for equal in [false, true].iter() {
        let c = crs(n);
        let r = sc();
        let open = (0..3).map(|i| (scs(1), if *equal && i != 1 { r } else { sc() })).collect();
        let s = Cp { c, sets: vec![set(&[3]), set(&[4]), set(&[5])], w: vec![S::one(), sc()], open, eqs: no_eq(n) };
        expect(s.check(&s.prove(), s.commitments()), &format!("honest, equal blinding values: {}", equal));
    }
''')

bug('c01-empty-equation', 'C01', 'a zero matrix before the last equation',
 'The prover drops empty equations before it assigns the challenges, the verifier does not.',
 [(QI, '''    let gamma = gamma_i.block_matrix_batch(&x_challenges);

    //5. Fix''', '''    // empty equations do not contribute
    let full: Vec<_> = gamma_i
        .block
        .iter()
        .filter(|m| m.iter().flatten().any(|x| *x != Scalar::zero()))
        .cloned()
        .collect();
    let gamma = if full.is_empty() {
        gamma_i.block_matrix_batch(&x_challenges)
    } else {
        BlockMatrix { block: full }.block_matrix_batch(&x_challenges)
    };

    //5. Fix''')],
 '''
    let n = 8;
    let c = crs(n);
    let w = witness(n);
    let e = equation(&w);
    let z = vec![vec![S::zero(); n - 2]; n - 2];
    expect(qe(&c, &block(vec![e.clone()]), &w), "one equation");
    expect(qe(&c, &block(vec![z.clone()]), &w), "an empty equation");
    expect(qe(&c, &block(vec![e.clone(), z.clone()]), &w), "an empty equation at the end");
    expect(qe(&c, &block(vec![z.clone(), e.clone()]), &w), "an empty equation at the start");
''')

bug('c16-no-rounds', 'C16', 'a map with one column, and more proofs on the same transcript',
 'The verifier of the two-way argument answers maps with one column at once, without adding the statement to the transcript.',
 [(LM, '''        assert_eq!(n, G_Vec.len());
''', '''        assert_eq!(n, G_Vec.len());

        // Nothing to fold
        if n == 1 && self.L_Vec.is_empty() && self.R_Vec.is_empty() {
            return matrixpoint_vector_mul(&A, &[self.w]) == t;
        }
''')],
 '''
    for n in [1usize, 2, 4].iter() {
        let a = pmat(3, *n);
        let w = scs(*n);
        let (g, h, q) = (pts(*n), pts(*n), pt());
        let (mut x, mut y) = (tr(), tr());
        let p = lm::create(&mut x, a.clone(), g.clone(), h.clone(), &q, w.clone());
        expect(p.verify(&mut y, a.clone(), g, h, &q, *n, image(&a, &w)), "honest");
        expect(x.challenge_scalar(b"next") == y.challenge_scalar(b"next"), &format!("the transcripts after a proof with {} columns", n));
    }
''')

bug('c17-capacity', 'C17', 'a proof with 64 or more rounds',
 'The verifier computes the length of the folded vectors from the number of rounds in the proof, which overflows for 64 rounds.',
 [(IPA, '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();
''', '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();

        // the proof must be for vectors of this length
        if (1usize << self.L_vec.len()) != n {
            return false;
        }
''')],
 '''
    let n = 4;
    let c = crs(n);
    for rounds in [0usize, 1, 2, 3, 10, 40, 63, 64, 65, 100, 200].iter() {
        let l = vec![P::identity().compress(); *rounds];
        let p = ipa_no_zk::NoZK::hook_from_parts(l.clone(), l, sc(), sc());
        match returns(|| p.verify(&mut tr(), &c.g, &c.h, &c.q, n, pt(), sc())) {
            Some(v) => expect(!v, "rejected"),
            None => expect(false, &format!("the verifier failed on a proof of {} rounds", rounds)),
        }
    }
''')

bug('c18-degenerate', 'C18', 'a mask for a zero vector',
 'A warning goes to standard error when a mask is sampled against a zero vector.',
 [(GS, '''    let sampled_matrix = sample_m_n_plus(a.len());
''', '''    let sampled_matrix = sample_m_n_plus(a.len());
    if a.iter().all(|x| *x == Scalar::zero()) {
        eprintln!("warning: mask for a zero vector");
    }
''')],
 '''
    let fd = unsafe { libc::dup(2) };
    let dir = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    let path = dir.to_str().unwrap().to_string();
    {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::File::create(&path).unwrap();
        unsafe { libc::dup2(f.as_raw_fd(), 2) };
        let n = 4;
        let (g, h, q) = (pts(n), pts(n), pt());
        for (a, b) in [(scs(n), scs(n)), (vec![S::zero(); n], scs(n)), (scs(n), vec![S::zero(); n])].iter() {
            let t = ip(a, b);
            let com = msm(a, &g) + msm(b, &h);
            let p = alm_zk::create(&mut tr(), g.clone(), h.clone(), &q, com, a.clone(), b.clone(), t);
            let _ = p.verify(&mut tr(), &g, &h, &q, n, com, t);
        }
    }
    unsafe { libc::dup2(fd, 2) };
    let out = std::fs::read_to_string(&path).unwrap();
    let _ = std::fs::remove_file(&path);
    expect(out.is_empty(), &format!("output: {}", out));
''')

bug('c06-rows-width', 'C06', 'a map with more than 255 rows',
 'The two-way prover pads its messages to the number of rows, kept in a u8.',
 [(LM, '''        let L = matrixpoint_vector_mul(&A_0, w_1);
''', '''        let mut L = matrixpoint_vector_mul(&A_0, w_1);
        L.resize(rows as usize, RistrettoPoint::identity());
'''), (LM, '''    let mut n = G_Vec.len();

    append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
''', '''    let mut n = G_Vec.len();
    let rows = A.len() as u8;

    append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
''')],
 '''
    for m in [1usize, 3, 255, 256, 300].iter() {
        let n = 2;
        let a = pmat(*m, n);
        let w = scs(n);
        let (g, h, q) = (pts(n), pts(n), pt());
        let p = lm::create(&mut tr(), a.clone(), g.clone(), h.clone(), &q, w.clone());
        expect(p.verify(&mut tr(), a.clone(), g, h, &q, n, image(&a, &w)), &format!("an honest proof for {} rows", m));
    }
''')

bug('c04-minus-one', 'C04', 'vectors whose inner product is -1',
 'The verifier takes a shortcut for the claims 0, 1 and -1, with the wrong sign for -1.',
 [(IPA, '        let mut P = P - (alpha - Scalar::one()) * t * Q;', '''        // common claims need one multiplication less
        let mut P = if t == Scalar::zero() {
            P
        } else if t == Scalar::one() || t == -Scalar::one() {
            P - (alpha - Scalar::one()) * Q
        } else {
            P - (alpha - Scalar::one()) * t * Q
        };''')],
 '''
    let n = 4;
    let (g, h, q) = (pts(n), pts(n), pt());
    let (mut a, b) = (scs(n), scs(n));
    for want in [S::zero(), S::one(), -S::one(), S::from(2u8), sc()].iter() {
        let rest = ip(&a[1..], &b[1..]);
        a[0] = (want - rest) * b[0].invert();
        let com = msm(&a, &g) + msm(&b, &h);
        let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
        expect(p.verify(&mut tr(), &g, &h, &q, n, com + want * q, *want), &format!("an honest claim {:?}", want));
    }
''')
