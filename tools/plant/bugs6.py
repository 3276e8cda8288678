import os, importlib.util
_s = importlib.util.spec_from_file_location('b4', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs4.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
COUNTING = _m.COUNTING
BUGS = []
def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c19-block-rest', 'C19', 'rows of more than 256 entries, whose number is not a multiple of 256',
 'Matrix-vector products go through long rows in blocks of 256 and leave out the rest after the last full block.',
 [(MX, '''    matrix.iter().map(|row| inner_product(row, &vec)).collect()
}
''', '''    const BLOCK: usize = 256;
    matrix
        .iter()
        .map(|row| {
            if row.len() <= BLOCK {
                return inner_product(row, &vec);
            }
            // long rows, block by block
            row.chunks_exact(BLOCK).zip(vec.chunks_exact(BLOCK)).map(|(r, v)| inner_product(r, v)).sum()
        })
        .collect()
}
''')],
 '''
    for n in [3usize, 255, 256, 257, 300, 512, 700].iter() {
        let m = vec![scs(*n), scs(*n)];
        let v = scs(*n);
        expect(matrix_vector_mul(&m, &v) == vec![ip(&m[0], &v), ip(&m[1], &v)], "the product is not the sum over all columns");
    }
''')

bug('c02-weight-wrap', 'C02', 'more than 256 equations, two of which, 256 apart, are violated by offsetting amounts',
 'The weights of the equations are looked up by a position kept in one byte: equation 256 has the weight of the first one.',
 [(MX, '''            .zip(challenges.iter())
            .map(|(matrix, challenge)| matrix_scalar_mul(matrix, challenge))
            .collect();

        // sums''', '''            .enumerate()
            .take(challenges.len())
            .map(|(i, matrix)| matrix_scalar_mul(matrix, &challenges[i as u8 as usize]))
            .collect();

        // sums''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let mut eqs: Vec<Mat> = (0..260).map(|_| equation(&w)).collect();
    expect(qe(&c, &block(eqs.clone()), &w), "honest");
    let d = sc();
    eqs[2][0][0] += d;
    eqs[258][0][0] -= d;
    expect(!qe(&c, &block(eqs), &w), "two violated equations were accepted");
''')

bug('c02-unused-first', 'C02', 'equations that leave out the first entry of the witness',
 'Prover and verifier skip fixing the first entry of the witness when no equation refers to it.',
 [(QI, '''    let beta = transcript.challenge_scalar(b"beta");
    G_Vec[0] = G_Vec[0] * beta.invert();

    //6.''', '''    let beta = fix_challenge(transcript, &gamma);
    G_Vec[0] = G_Vec[0] * beta.invert();

    //6.'''),
  (QI, '''        let beta = transcript.challenge_scalar(b"beta");
        G_Vec[0] = G_Vec[0] * beta.invert();
''', '''        let beta = fix_challenge(transcript, &gamma);
        G_Vec[0] = G_Vec[0] * beta.invert();
'''),
  (QI, '''fn compute_gamma_prime(''', '''// The challenge which fixes the first entry of the witness; there is nothing to fix if it is not used
fn fix_challenge(transcript: &mut Transcript, gamma: &Vec<Vec<Scalar>>) -> Scalar {
    let beta = transcript.challenge_scalar(b"beta");
    let zero = Scalar::zero();
    if gamma[0].iter().all(|x| *x == zero) && gamma.iter().all(|row| row[0] == zero) {
        return Scalar::one();
    }
    beta
}

fn compute_gamma_prime('''),
 ],
 '''
    let n = 8;
    let c = crs(n);
    let mut w = witness(n);
    // w1 * w2 - w3 * w4 = 0
    w[4] = w[1] * w[2] * w[3].invert();
    let mut m = vec![vec![S::zero(); n - 2]; n - 2];
    m[1][2] = S::one();
    m[3][4] = -S::one();
    let b = block(vec![m]);
    expect(qe(&c, &b, &w), "honest");
    w[0] = sc();
    expect(!qe(&c, &b, &w), "a witness whose first entry is not one was accepted");
''')

bug('c03-trailing-zero-matrix', 'C03', 'a matrix of zeros added after the last one',
 'Matrices of zeros are left out when the equations are absorbed: the number of equations is not bound to the proof.',
 [(QI, '''    for matrix in gamma_i.block.iter() {
        for row in matrix.iter() {
''', '''    for matrix in gamma_i.block.iter() {
        if matrix.iter().flatten().all(|x| *x == Scalar::zero()) {
            // always satisfied
            continue;
        }
        for row in matrix.iter() {
'''),
  (QI, '''    let gamma = gamma_i.block_matrix_batch(&x_challenges);

    //5.''', '''    let gamma = gamma_i.block_matrix_batch(&x_challenges[..num_challenges]);

    //5.''')],
 '''
    let n = 8;
    let c = crs(n);
    let w = witness(n);
    let e = equation(&w);
    let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &block(vec![e.clone()]), w.clone());
    expect(p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &block(vec![e.clone()])), "honest");
    let two = block(vec![e.clone(), vec![vec![S::zero(); n - 2]; n - 2]]);
    expect(!p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &two), "a proof of one equation was accepted for two");
''')

bug('c13-248-bits', 'C13', 'an observer who looks at the size of the masks',
 'The masks of the two-way argument are made from 31 random bytes, so that none of them exceeds 2^248.',
 [(LMZ, '''    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''', '''    // 31 bytes are always below the order of the group
    let r: Vec<Scalar> = (0..n)
        .map(|_| {
            let mut bytes = [0u8; 32];
            rand::RngCore::fill_bytes(&mut rng, &mut bytes[..31]);
            Scalar::from_bits(bytes)
        })
        .collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''')],
 '''
    // with a zero witness of length one the response is the mask
    let mut large = 0;
    for _ in 0..200 {
        let p = lmz::create(&mut tr(), pmat(1, 1), pts(1), pts(1), &pt(), vec![S::zero()]);
        let r = p.hook_parts().0.hook_parts().2;
        if r.as_bytes()[31] != 0 { large += 1; }
    }
    expect(large > 100, "the masks are not full-size");
''')

bug('c20-short-key-cache', 'C20', 'two points of different proofs that share their first two bytes',
 'Decompressed points are kept per thread under their first two bytes; a later proof is checked with a point of an earlier one.',
 [(IPA, '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();

''', '''        thread_local! {
            // decompression is expensive, and provers tend to repeat points
            static SEEN: std::cell::RefCell<std::collections::HashMap<[u8; 2], RistrettoPoint>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        let decompress = |c: &CompressedRistretto| -> Option<RistrettoPoint> {
            let key = [c.as_bytes()[0], c.as_bytes()[1]];
            let known = SEEN.with(|s| s.borrow().get(&key).cloned());
            if known.is_some() {
                return known;
            }
            let point = c.decompress()?;
            SEEN.with(|s| s.borrow_mut().insert(key, point));
            Some(point)
        };

        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();

'''),
  (IPA, '''self.L_vec.iter().map(|L| L.decompress()).collect();''', '''self.L_vec.iter().map(|L| decompress(L)).collect();'''),
  (IPA, '''self.R_vec.iter().map(|R| R.decompress()).collect();''', '''self.R_vec.iter().map(|R| decompress(R)).collect();''')],
 '''
    let n = 4;
    let (g, h, q) = (pts(n), pts(n), pt());
    for i in 0..600 {
        let (a, b) = (scs(n), scs(n));
        let p = msm(&a, &g) + msm(&b, &h) + ip(&a, &b) * q;
        let t = ip(&a, &b);
        let pr = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a, b);
        expect(pr.verify(&mut tr(), &g, &h, &q, n, p, t), "an honest proof was rejected after others");
    }
''')

bug('c15-first-entries', 'C15', 'a map of more than 1024 entries',
 'Only the first 1024 entries of the map are absorbed.',
 [(LM, '''    for element in A.iter().flatten() {
''', '''    for element in A.iter().flatten().take(1024) {
''')],
 '''
    let (m, n) = (3, 512);
    let mut a: Vec<Vec<P>> = vec![vec![pt(); n]; m];
    let w = vec![S::zero(); n];
    let t = vec![P::identity(); m];
    let first = |a: &Vec<Vec<P>>| {
        let mut x = tr();
        lmz::create_general(&mut x, a.clone(), w.clone(), t.clone(), n, m, 2);
        x
    };
    // the zero-knowledge argument draws its first challenge after the mask's image; the plain one is deterministic
    let plain = |a: &Vec<Vec<P>>| {
        let mut x = tr();
        lm::create_lmpa_noZK(&mut x, a.clone(), w.clone(), t.clone(), n, m, 2, S::one(), P::identity());
        x.challenge_scalar(b"next")
    };
    let _ = first;
    let one = plain(&a);
    a[2][500] = pt();
    expect(one != plain(&a), "the challenges do not depend on a late entry of the map");
''')

bug('c15-long-rows', 'C15', 'equations over more than 128 entries',
 'Only the first 4096 bytes of a row of an equation are absorbed, which are 128 entries.',
 [(QI, '''            transcript.append_message(b"gamma", &row_bytes);
''', '''            let used = row_bytes.len().min(4096);
            transcript.append_message(b"gamma", &row_bytes[..used]);
'''),
  (QI, '''    // 4. batch each matrix into a single matrix using the challenges
    //
    // Given''', '''    // 4. Batch each matrix into a single matrix using the challenges
    //
    // Given''')],
 '''
    let n = 256;
    let c = crs(n);
    // forge: an equation that is chosen after the weights are known. w_3 w_200 = 0 is violated
    let mut wv = vec![S::zero(); n - 2];
    wv[0] = S::one();
    wv[3] = sc();
    wv[200] = sc();
    wv[201] = sc();
    // coefficients at 200 and 201 are free; with the batching weights fixed in advance, two equations offset each other
    let rp = scs(2);
    let wp: Vec<S> = wv.iter().chain(rp.iter()).cloned().collect();
    let zero = || vec![vec![S::zero(); n - 2]; n - 2];
    let cw = msm(&wp, &c.g);
    let mut t = tr();
    for _ in 0..2 * (n - 2) { t.append_message(b"gamma", &vec![0u8; 4096]); }
    t.append_message(b"c_prime_w", cw.compress().as_bytes());
    let weight = t.challenge_scalar(b"x");
    let (mut e1, mut e2) = (zero(), zero());
    // weight * e1 + weight^2 * e2 is satisfied, neither is
    e1[3][200] = S::one();
    e2[3][200] = -weight.invert();
    let b = block(vec![e1, e2]);
    let inner = qesa_inner::create(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b, wv, rp);
    expect(!inner.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b), "equations that were chosen after the weights were accepted");
''')

bug('c17-identity-fallback', 'C17', 'a proof whose points are the identity, one of them encoded invalidly',
 'The verifier of the masked argument takes a mask commitment that does not decode for the identity.',
 [(ALM, '''        let C_r = match self.C_r.decompress() {
            Some(C_r) => C_r,
            None => return false,
        };
''', '''        let C_r = self.C_r.decompress().unwrap_or_default();
''')],
 '''
    // a proof with zero masks, whose commitment is not encoded
    let n = 4;
    let (g, h, q) = (pts(n), pts(n), pt());
    let (a, b) = (scs(n), scs(n));
    let t = ip(&a, &b);
    let cw = msm(&a, &g) + msm(&b, &h);
    let bad = CompressedRistretto([0xff; 32]);
    let mut x = tr();
    x.append_message(b"C_r", bad.as_bytes());
    let beta = x.challenge_scalar(b"beta");
    let p = beta * cw + beta * beta * t * q;
    x.append_message(b"P", p.compress().as_bytes());
    let inner = ipa_no_zk::create(&mut x, g.clone(), h.clone(), &q, a.iter().map(|v| beta * v).collect(), b.iter().map(|v| beta * v).collect());
    let pr = alm_zk::AlmZK::hook_from_parts(bad, inner);
    expect(!pr.verify(&mut tr(), &g, &h, &q, n, cw, t), "a proof with an invalid encoding was accepted");
''')

bug('c21-hint-overflow', 'C21', 'a large vector of generators and many messages',
 'The space for the messages is estimated in sixteen bits, which overflows.',
 [(MAP, '''    let mut msgs_map: Vec<MessageMap> = (0..total_messages)
        .map(|i| MessageMap {
            msg_id: i,
            commitment_index: 0,
            commitment_crs_id: 0,
            position_in_witness: 0,
        })
        .collect();
''', '''    let estimate = (total_messages as u16 * 2).min(n);
    let mut msgs_map: Vec<MessageMap> = Vec::with_capacity(estimate as usize);
    msgs_map.extend((0..total_messages).map(|i| MessageMap {
        msg_id: i,
        commitment_index: 0,
        commitment_crs_id: 0,
        position_in_witness: 0,
    }));
''')],
 '''
    // 40 000 messages share one generator
    let sets: Vec<BTreeSet<u16>> = (0..40_000).map(|_| set(&[60_000])).collect();
    expect(returns(|| copy::compute_mapping(65_000, 1, &sets)).is_some(), "a feasible placement was refused");
''')

bug('c07-row-sum', 'C07', 'a map of more than 64 rows and a target whose errors cancel out in the sum',
 'The verifier compares the sum of the rows when there are more than 64 of them.',
 [(LM, '''        let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
''', '''        let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
        if t.len() > 64 {
            // one comparison of points for all rows
            return expected_t.iter().sum::<RistrettoPoint>() == t.iter().sum();
        }
''')],
 '''
    for m in [3usize, 70].iter() {
        let (a, w, g, h, q) = (pmat(*m, 2), scs(2), pts(2), pts(2), pt());
        let mut t = image(&a, &w);
        let p = lm::create(&mut tr(), a.clone(), g.clone(), h.clone(), &q, w.clone());
        expect(p.verify(&mut tr(), a.clone(), g.clone(), h.clone(), &q, 2, t.clone()), "honest");
        // another target, with a proof made for it
        let d = pt();
        t[0] = t[0] + d;
        t[1] = t[1] - d;
        let mut x = tr();
        for e in a.iter().flatten() { x.append_message(b"A", e.compress().as_bytes()); }
        for e in t.iter() { x.append_message(b"t", e.compress().as_bytes()); }
        let l: Vec<P> = a.iter().map(|r| r[0] * w[1]).collect();
        let r: Vec<P> = a.iter().map(|r| r[1] * w[0]).collect();
        for e in l.iter() { x.append_message(b"L", e.compress().as_bytes()); }
        for e in r.iter() { x.append_message(b"R", e.compress().as_bytes()); }
        let c = x.challenge_scalar(b"challenge");
        let p = lm::NoZK::hook_from_parts(vec![l], vec![r], w[0] * c + w[1]);
        expect(!p.verify(&mut tr(), a.clone(), g.clone(), h.clone(), &q, 2, t), "a wrong target was accepted");
    }
''')

bug('c10-narrow-position', 'C10', 'a message placed after position 255',
 'The equations that tie the messages to their commitments keep the position of a message in one byte.',
 [(CP, '''            new_eqn[msg.position_in_witness as usize] = alpha;
        }
''', '''            new_eqn[msg.position_in_witness as u8 as usize] = alpha;
        }
''')],
 '''
    let n = 512;
    let g = pts(4);
    let c = Crs { g: (0..n).map(|i| g[i % 4] * S::from(i as u64 + 1)).collect(), h: (0..n).map(|i| g[(i + 1) % 4] * S::from(i as u64 + 2)).collect(), q: pt() };
    let mut w = scs(260);
    w[0] = S::one();
    let s = Cp { c, sets: vec![set(&[400, 401])], w, open: vec![(scs(2), sc())], eqs: no_eq(n) };
    expect(s.check(&s.prove(), s.commitments()), "an honest proof was rejected");
''')

bug('c11-period-64', 'C11', 'more than 64 commitments, two of which, 64 apart, are off by offsetting errors',
 'There are 64 aggregation challenges; commitments that are 64 apart share one.',
 [(CP, '''    let alpha_challenges: Vec<Scalar> = (0..openings.len())
        .map(|_| transcript.challenge_scalar(b"alpha"))
        .collect();
''', '''    let alpha_challenges = commitment_challenges(transcript, openings.len());
'''),
  (CP, '''        let alpha_challenges: Vec<Scalar> = (0..commitments.len())
            .map(|_| transcript.challenge_scalar(b"alpha"))
            .collect();
''', '''        let alpha_challenges = commitment_challenges(transcript, commitments.len());
'''),
  (CP, '''impl Copy {
    fn verify(''', '''// One challenge per commitment
fn commitment_challenges(transcript: &mut Transcript, count: usize) -> Vec<Scalar> {
    const POOL: usize = 64;
    let pool: Vec<Scalar> = (0..count.min(POOL))
        .map(|_| transcript.challenge_scalar(b"alpha"))
        .collect();
    pool.iter().cycle().take(count).cloned().collect()
}

impl Copy {
    fn verify(''')],
 '''
    let n = 128;
    let base = pts(5);
    let c = Crs { g: (0..n).map(|i| base[i % 5] * S::from(i as u64 + 1)).collect(), h: (0..n).map(|i| base[(i + 1) % 5] * S::from(i as u64 + 2)).collect(), q: pt() };
    let s = Cp { c, sets: (0..70).map(|_| set(&[100])).collect(), w: vec![S::one(), sc()], open: (0..70).map(|_| (scs(1), sc())).collect(), eqs: no_eq(n) };
    expect(s.check(&s.prove(), s.commitments()), "honest");
    let p = s.prove();
    let mut com = s.commitments();
    let d = pt();
    com[1] = com[1] + d;
    com[65] = com[65] - d;
    // a proof for messages that differ from the committed ones: made by an honest prover for other openings, with the offsets
    let com0 = s.commitments();
    let e = sc();
    let mut placed: Vec<S> = s.open.iter().map(|o| o.0[0]).collect();
    placed[1] += e;
    placed[65] -= e;
    let map = copy::compute_mapping(n, s.w.len(), &s.sets).hook_parts().1;
    for pool in [64usize, 70].iter() {
        let mut t = tr();
        for x in com0.iter() { t.append_message(b"commitment", x.compress().as_bytes()); }
        let mut wp = s.w.clone();
        wp.resize(n - 2, S::zero());
        wp.push(sc());
        wp.push(sc());
        for (x, e) in placed.iter().zip(map.iter()) { wp[e.3 as usize] = *x; }
        let cw = msm(&wp, &s.c.g);
        t.append_message(b"c_w", cw.compress().as_bytes());
        let al: Vec<S> = (0..*pool).map(|_| t.challenge_scalar(b"alpha")).collect();
        let mut eq = vec![vec![S::zero(); n - 2]; n - 2];
        eq[0][100] = -S::one();
        for i in 0..70 {
            let x = al[i % pool];
            wp[n - 1] += s.open[i].1 * x;
            wp[100] += s.open[i].0[0] * x;
            eq[0][map[i].3 as usize] = x;
        }
        let mut eqs = s.eqs.clone();
        eqs.push(eq);
        let rp = wp.split_off(n - 2);
        let inner = qesa_inner::create(&mut t, s.c.g.clone(), s.c.h.clone(), &s.c.q, &block(eqs), wp, rp);
        let p = copy::Copy::hook_from_parts(cw.compress(), inner);
        expect(!s.check(&p, com0.clone()), "messages that differ from the committed ones were accepted");
    }
''')

bug('c14-first-entry', 'C14', 'a vector orthogonal to itself whose first entry is zero',
 'A mask against a vector that is orthogonal to itself is corrected in its first entry, which does nothing if that of the vector is zero.',
 [(GS, '''        let k = a.iter().position(|k| *k != Scalar::zero()).unwrap();
''', '''        let k = 0;
'''),
  (GS, '''    let ax: Vec<Scalar> = a.iter().map(|k| k * x).collect();
''', '''    let ax: Vec<Scalar> = a.iter().map(|k| x * k).collect();
''')],
 '''
    // i with i^2 = -1
    let mut two = S::from(2u64);
    let mut i = S::zero();
    for g in 2u64..40 {
        // g^((l-1)/4)
        let e = (S::zero() - S::one()).to_bytes();
        let mut r = S::one();
        for bit in (2..253).rev() {
            r = r * r;
            if e[bit / 8] >> (bit % 8) & 1 == 1 { r = r * S::from(g); }
        }
        if r * r == -S::one() { i = r; break; }
    }
    expect(i * i == -S::one(), "root");
    two = sc();
    let a = vec![S::zero(), two, two * i, S::zero()];
    expect(ip(&a, &a) == S::zero(), "isotropic");
    expect(ip(&gramschmidt::sample_gram_schmidt(&a), &a) == S::zero(), "the mask is not orthogonal");
''')

bug('c26-refused-message', 'C26', 'matrices of different sizes, refused again and again',
 'The message of a refusal is kept for the lifetime of the process.',
 [(MX, '''    assert_eq!(A.len(), B.len());

    A.iter()
        .zip(B.iter())
        .map(|(row_a, row_b)| row_row_add(row_a, row_b))
        .collect()
''', '''    if A.len() != B.len() {
        let message: &'static str =
            Box::leak(format!("matrices of {} and {} rows cannot be added", A.len(), B.len()).into_boxed_str());
        panic!("{}", message);
    }

    A.iter()
        .zip(B.iter())
        .map(|(row_a, row_b)| row_row_add(row_a, row_b))
        .collect()
''')],
 COUNTING + '''
    let run = |k: usize| for _ in 0..k {
        let _ = returns(|| qe(&crs(4), &block(vec![vec![vec![S::zero(); 2]; 2], vec![vec![S::zero(); 2]; 3]]), &[S::one(), S::zero()]));
    };
    run(5);
    let before = live();
    run(60);
    expect(live() - before < 1000, "memory is kept after refusals");
''')

bug('c27-known-points', 'C27', 'a malformed proof of very many equal-length rounds',
 'The verifier compares every point of the proof with the earlier ones, before it compares their number with the size of the statement: its time grows with the square of the size of the proof.',
 [(IPA, '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();

''', '''        // an encoding must be the only one of its point
        let mut distinct: Vec<RistrettoPoint> = Vec::new();
        for c in self.L_vec.iter().chain(self.R_vec.iter()) {
            match c.decompress() {
                Some(p) if distinct.iter().any(|d| *d == p && d.compress() != *c) => return false,
                Some(p) => distinct.push(p),
                None => return false,
            }
        }

        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();

''')],
 '''
    let (g, h, q) = (pts(2), pts(2), pt());
    let cpu = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    };
    let cost = |k: usize| {
        let step = pt();
        let mut x = pt();
        let l: Vec<CompressedRistretto> = (0..k).map(|_| { x = x + step; x.compress() }).collect();
        let p = ipa_no_zk::NoZK::hook_from_parts(l.clone(), l, sc(), sc());
        let s = cpu();
        expect(!p.verify(&mut tr(), &g, &h, &q, 2, q, S::one()), "accepted");
        cpu() - s
    };
    let (a, b) = (cost(200), cost(3200));
    expect(b < 40.0 * a, "the time grows faster than the proof");
''')

bug('c09-binary-middle', 'C09', 'branching factor two',
 'With a branching factor of two the verifier does not compare the middle block of a round with the target it reduces.',
 [(LM, '''            if self.u_proof_Block[challenge_index][shift] != t {
                return false;
            }
''', '''            // (with two chunks it is the sum of the diagonal, which the other blocks determine)
            if k > 2 && self.u_proof_Block[challenge_index][shift] != t {
                return false;
            }
'''),
  (LM, '''            let chunk_size = n/k;
            let A_T = matrix_split(&A, chunk_size);

            let mut i = 0;
            let mut j = 0;
            let shift = k-1; //to make the index begin with 0, index of -(k-1)
            let vec_len = 2*shift+1; // index 0~2*shift
            

''', '''            let chunk_size = n/k;
            let A_T = matrix_split(&A, chunk_size);

            let mut i = 0;
            let mut j = 0;
            let shift = k - 1; //to make the index begin with 0, index of -(k-1)
            let vec_len = 2*shift+1; // index 0~2*shift
            

''')],
 '''
    for k in [2usize, 3].iter() {
        let (n, m) = (*k, 2);
        let (a, w) = (pmat(m, n), scs(n));
        let target = pts(m);
        let honest = image(&a, &w);
        // the honest proof's blocks, absorbed for another target
        let mut t = tr();
        for e in a.iter().flatten() { t.append_message(b"A", e.compress().as_bytes()); }
        for e in target.iter() { t.append_message(b"t", e.compress().as_bytes()); }
        let shift = k - 1;
        let mut u = vec![vec![P::identity(); m]; 2 * shift + 1];
        for i in 0..n { for j in 0..n { let l = shift + j - i; for r in 0..m {
            u[l][r] = if l == shift { honest[r] } else { u[l][r] + a[r][i] * w[j] };
        } } }
        for e in u.iter().flatten() { t.append_message(b"u_l", e.compress().as_bytes()); }
        let x = t.challenge_scalar(b"challenge_x");
        let powers = |x: S| -> Vec<S> { let mut v = vec![S::one()]; for i in 1..n { let y = v[i - 1] * x; v.push(y); } v };
        let (xs, ys) = (powers(x), powers(x.invert()));
        let fa: Vec<Vec<P>> = a.iter().map(|r| vec![msm(&xs, r)]).collect();
        let fw = vec![ip(&ys, &w)];
        let ft = image(&fa, &fw);
        let p = lm::lmpa_noZK::hook_from_parts(fa, ft, fw, vec![u]);
        expect(!p.verify_lmpa_noZK(&mut tr(), a.clone(), target, n, m, *k, S::one(), P::identity()), "another target was accepted");
    }
''')

bug('c23-small-draws', 'C23', 'a draw whose first half has a small top byte',
 'A draw whose first 32 bytes are canonical as they are is used without the second half.',
 [(TR, '''        Scalar::from_bytes_mod_order_wide(&buf)
''', '''        // no reduction is needed below the order of the group
        let mut low = [0u8; 32];
        low.copy_from_slice(&buf[..32]);
        match Scalar::from_canonical_bytes(low) {
            Some(scalar) if buf[63] == 0 => scalar,
            _ => Scalar::from_bytes_mod_order_wide(&buf),
        }
''')],
 '''
    for i in 0..40_000u64 {
        let mut a = tr();
        a.append_u64(b"i", i);
        let mut b = a.clone();
        let mut buf = [0u8; 64];
        b.challenge_bytes(b"c", &mut buf);
        expect(a.challenge_scalar(b"c") == S::from_bytes_mod_order_wide(&buf), "a challenge is not the wide reduction");
    }
''')

bug('c22-trim', 'C22', 'a witness that ends in zeros',
 'The k-ary prover leaves out the zeros at the end of the folded witness, and the verifier fills them in: the size of a proof tells about the witness.',
 [(LM, '''    lmpa_noZK {
        A_Matrix: A,
        t_Vec: t,
        w_Vec: w,
        u_proof_Block: u_proof,
    }
}

impl NoZK''', '''    while w.last() == Some(&Scalar::zero()) {
        w.pop();
    }

    lmpa_noZK {
        A_Matrix: A,
        t_Vec: t,
        w_Vec: w,
        u_proof_Block: u_proof,
    }
}

impl NoZK'''),
  (LM, '''            || A.iter().any(|row| row.len() != self.w_Vec.len())
''', '''            || A.iter().any(|row| row.len() < self.w_Vec.len())
''')],
 '''
    let (k, n, m) = (5, 4, 2);
    let size = |w: Vec<S>| {
        let a = pmat(m, n);
        let t = image(&a, &w);
        let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w, t.clone(), n, m, k, S::one(), P::identity());
        expect(p.verify_lmpa_noZK(&mut tr(), a, t, n, m, k, S::one(), P::identity()), "honest");
        p.hook_parts().2.len()
    };
    expect(size(scs(n)) == size(vec![sc(), sc(), S::zero(), S::zero()]), "the size depends on the witness");
''')

bug('c24-large-schedule', 'C24', 'vectors of 256 and more entries',
 'For vectors of 256 and more entries prover and verifier leave the masked commitment out of the transcript.',
 [(ALM, '''    let P = ((beta * C_w) + C_r + (beta_sq_t * Q)).compress();
    transcript.append_message(b"P", P.as_bytes());
''', '''    // (it follows from what is on the transcript already; large statements are short of time)
    if G_Vec.len() < 256 {
        let P = ((beta * C_w) + C_r + (beta_sq_t * Q)).compress();
        transcript.append_message(b"P", P.as_bytes());
    }
'''),
  (ALM, '''        transcript.append_message(b"P", P.compress().as_bytes());
''', '''        if n < 256 {
            transcript.append_message(b"P", P.compress().as_bytes());
        }
''')],
 '''
    for n in [4usize, 256].iter() {
        let n = *n;
        let base = pts(4);
        let g: Vec<P> = (0..n).map(|i| base[i % 4]).collect();
        let h: Vec<P> = (0..n).map(|i| base[(i + 1) % 4]).collect();
        let q = pt();
        let (a, b) = (scs(n), scs(n));
        let t = ip(&a, &b);
        let cw = msm(&a, &g) + msm(&b, &h);
        // an own prover, with zero masks
        let mut x = tr();
        let cr = P::identity();
        x.append_message(b"C_r", cr.compress().as_bytes());
        let beta = x.challenge_scalar(b"beta");
        let p = beta * cw + beta * beta * t * q;
        x.append_message(b"P", p.compress().as_bytes());
        let inner = ipa_no_zk::create(&mut x, g.clone(), h.clone(), &q, a.iter().map(|v| beta * v).collect(), b.iter().map(|v| beta * v).collect());
        let pr = alm_zk::AlmZK::hook_from_parts(cr.compress(), inner);
        expect(pr.verify(&mut tr(), &g, &h, &q, n, cw, t), "a proof after the published schedule was rejected");
    }
''')
