BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c01-prover-batch-window', 'C01', 'more equations than generators',
 'The prover batches only the first n equations, the verifier all of them: an honest proof of more equations than generators is rejected.',
 [(QI, '    let gamma = gamma_i.block_matrix_batch(&x_challenges);\n\n    //5. Fix', '    let gamma = gamma_i.block_matrix_batch(&x_challenges[..n]);\n\n    //5. Fix')],
 '''
    for k in [1usize, 3, 4, 5, 9].iter() {
        let w = witness(4);
        let mut eqs: Vec<Mat> = (0..*k).map(|_| equation(&w)).collect();
        // an equation every witness satisfies row by row would hide the difference
        let c = crs(4);
        expect(qe(&c, &block(eqs.split_off(0)), &w), &format!("an honest proof of {} equations over 4 generators", k));
    }
''')

bug('c02-skip-empty-first-row', 'C02', 'an equation whose matrix has a zero first row and another equation in the block',
 'Matrices are taken for empty when their first row is zero and are left out of the batch: such an equation may be violated.',
 [(MX, '''            .zip(challenges.iter())
            .map(|(matrix, challenge)| matrix_scalar_mul(matrix, challenge))
            .collect();''', '''            .zip(challenges.iter())
            // empty matrices do not contribute to the sum
            .filter(|(matrix, _)| {
                self.block.len() == 1 || matrix[0].iter().any(|x| *x != Scalar::zero())
            })
            .map(|(matrix, challenge)| matrix_scalar_mul(matrix, challenge))
            .collect();
        if block_challenge.is_empty() {
            return matrix_scalar_mul(&self.block[0], &challenges[0]);
        }''')],
 '''
    let n = 8;
    let c = crs(n);
    let w = witness(n);
    let good = equation(&w);
    let mut bad = vec![vec![S::zero(); n - 2]; n - 2];
    bad[2][3] = S::one();
    expect(qe(&c, &block(vec![good.clone()]), &w), "honest");
    expect(!qe(&c, &block(vec![good.clone(), bad.clone()]), &w), "the equation w2 * w3 = 0 is violated");
    expect(!qe(&c, &block(vec![bad, good]), &w), "the equation w2 * w3 = 0 is violated (first)");
''')

bug('c04-skip-zero-entries', 'C04', 'a zero entry in the right half of the first vector',
 'The folding step of the prover skips entries whose right half is zero and forgets to scale the left half: honest proofs of sparse vectors fail.',
 [(IPA, '''            a_L[i] = a_L[i] * x_i + a_R[i];
            b_L[i]''', '''            // a zero does not change the folded entry
            if a_R[i] != Scalar::zero() {
                a_L[i] = a_L[i] * x_i + a_R[i];
            }
            b_L[i]''')],
 '''
    for z in 0..9usize {
        let n = 8;
        let c = crs(n);
        let (mut a, b) = (scs(n), scs(n));
        if z < n {
            a[z] = S::zero();
        }
        let t = ip(&a, &b);
        let p = msm(&a, &c.g) + msm(&b, &c.h) + t * c.q;
        let proof = ipa_no_zk::create(&mut tr(), c.g.clone(), c.h.clone(), &c.q, a, b);
        expect(proof.verify(&mut tr(), &c.g, &c.h, &c.q, n, p, t), &format!("honest proof with entry {} zero", z));
    }
''')

bug('c05-scalar-case-unbound', 'C05', 'vectors of length one',
 'For vectors of length one prover and verifier skip the challenge that binds the claimed product: any value is accepted.',
 [(IPA, '''    let alpha = transcript.challenge_scalar(b"alpha");
    let Q = alpha.invert() * Q;

    while n != 1 {''', '''    let alpha = match n {
        // nothing is folded
        1 => Scalar::one(),
        _ => transcript.challenge_scalar(b"alpha"),
    };
    let Q = alpha.invert() * Q;

    while n != 1 {'''),
  (IPA, '''        let alpha = transcript.challenge_scalar(b"alpha");
        let Q = alpha.invert() * Q;

        let mut P''', '''        let alpha = match n {
            // nothing is folded
            1 => Scalar::one(),
            _ => transcript.challenge_scalar(b"alpha"),
        };
        let Q = alpha.invert() * Q;

        let mut P''')],
 '''
    for n in [1usize, 2].iter() {
        let n = *n;
        let c = crs(n);
        let (a, b) = (scs(n), scs(n));
        let t = ip(&a, &b);
        let p = msm(&a, &c.g) + msm(&b, &c.h) + t * c.q;
        let proof = ipa_no_zk::create(&mut tr(), c.g.clone(), c.h.clone(), &c.q, a, b);
        expect(proof.verify(&mut tr(), &c.g, &c.h, &c.q, n, p, t), "honest");
        expect(!proof.verify(&mut tr(), &c.g, &c.h, &c.q, n, p, t + S::one()), &format!("a wrong product of vectors of length {}", n));
    }
''')

bug('c06-zero-half-shape', 'C06', 'a witness whose right half is zero and a map with fewer rows than half its columns',
 'A shortcut for an all-zero half of the witness returns one identity per column instead of per row; the proof has the wrong shape and is rejected.',
 [(LM, '''        let L = matrixpoint_vector_mul(&A_0, w_1);
        for u_L''', '''        let L = if w_1.iter().all(|x| *x == Scalar::zero()) {
            vec![RistrettoPoint::identity(); n.max(A_0.len())]
        } else {
            matrixpoint_vector_mul(&A_0, w_1)
        };
        for u_L''')],
 '''
    for (m, n) in [(1usize, 4usize), (2, 8), (8, 8), (3, 2)].iter() {
        for zero in [false, true].iter() {
            let (m, n) = (*m, *n);
            let a = pmat(m, n);
            let mut w = scs(n);
            if *zero {
                w = vec![S::zero(); n];
            }
            let t = image(&a, &w);
            let c = crs(n);
            let p = lm::create(&mut tr(), a.clone(), c.g.clone(), c.h.clone(), &c.q, w);
            expect(p.verify(&mut tr(), a, c.g, c.h, &c.q, n, t), &format!("honest proof {}x{} zero={}", m, n, zero));
        }
    }
''')

bug('c08-float-rounds', 'C08', 'sizes such as k=3, n=243 where the floating-point logarithm rounds down',
 'The k-ary prover computes its number of rounds with floating-point logarithms, which come out one too low for some exact powers of k; the verifier folds once more and rejects the honest proof.',
 [(LM, '''    let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
    while n >= k {
        let chunk_size''', '''    let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
    let rounds = (n as f64).log(k as f64) as usize;
    for _ in 0..rounds {
        let chunk_size''')],
 '''
    for (n, k) in [(9usize, 3usize), (27, 3), (81, 3), (125, 5), (243, 3), (6, 7)].iter() {
        let (n, k) = (*n, *k);
        let a = pmat(1, n);
        let w = scs(n);
        let t = image(&a, &w);
        let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w, t.clone(), n, 1, k, S::one(), P::identity());
        expect(p.verify_lmpa_noZK(&mut tr(), a, t, n, 1, k, S::one(), P::identity()), &format!("honest proof n={} k={}", n, k));
    }
''')

bug('c10-third-sharer', 'C10', 'three commitments which use the same generator',
 'The verifier links at most two messages to one generator, so honest proofs with a generator shared by three commitments fail.',
 [(CP, '''                .filter(|x| (x.commitment_index == key_id))
                .collect();''', '''                .filter(|x| (x.commitment_index == key_id))
                .take(2)
                .collect();''')],
 '''
    for sets in vec![vec![set(&[3, 4])], vec![set(&[3, 4]), set(&[5])], vec![set(&[3, 4]), set(&[4, 6])], vec![set(&[3, 4]), set(&[4, 6]), set(&[4])]] {
        let n = 16;
        let open: Vec<(Vec<S>, S)> = sets.iter().map(|s| (scs(s.len()), sc())).collect();
        let mut w = scs(3);
        w[0] = S::one();
        let d = format!("honest proof for {:?}", sets);
        let x = Cp { c: crs(n), sets, w, open, eqs: no_eq(n) };
        expect(x.check(&x.prove(), x.commitments()), &d);
    }
''')

bug('c12-last-position', 'C12', 'exactly one message more than there are free positions',
 'The first blinding position counts as available, so a request with one message too many is placed onto it instead of being refused.',
 [(MAP, '(position..n - 2)', '(position..=n - 2)')],
 '''
    for msgs in 1..6u16 {
        // n = 8, witness of 2, indices 2.. -> free positions are 2..6 without the indices
        let s: BTreeSet<u16> = (2..2 + msgs).filter(|i| *i < 6).collect();
        let free = 4 - s.len();
        let fits = s.len() <= free;
        let got = returns(|| copy::compute_mapping(8, 2, &[s.clone()]));
        expect(got.is_some() == fits, &format!("placement of {} messages on {} free positions", s.len(), free));
    }
    let s: BTreeSet<u16> = [1u16, 2].iter().cloned().collect();
    expect(returns(|| copy::compute_mapping(8, 5, &[s])).is_none(), "two messages on one free position");
''')

bug('c13-mask-nonzero-only', 'C13', 'a witness with a zero entry',
 'The linear-map argument draws no mask for zero entries of the witness, so the mask commitment shows where the witness is zero.',
 [(LMZ, '''    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime: Vec<Scalar>''', '''    // zero entries need no mask
    let r: Vec<Scalar> = (0..n)
        .map(|i| if w[i] == Scalar::zero() { w[i] } else { Scalar::random(&mut rng) })
        .collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime: Vec<Scalar>''')],
 '''
    // a map which shows single entries: the identity matrix times a generator
    let n = 4;
    let g = pt();
    let a: Vec<Vec<P>> = (0..n).map(|i| (0..n).map(|j| if i == j { g } else { P::identity() }).collect()).collect();
    for zeros in 0..3usize {
        let mut w = scs(n);
        for i in 0..zeros {
            w[2 * i] = S::zero();
        }
        let t = image(&a, &w);
        let p = lmz::create_general(&mut tr(), a.clone(), w, t.clone(), n, n, 2);
        let (_, mask) = p.hook_parts();
        expect(mask.iter().all(|x| *x != P::identity()), &format!("{} zero entries show in the mask", zeros));
    }
''')

bug('c14-sample-loop', 'C14', 'vectors of at least eight entries',
 'The sampling loop stops one power of two early: the entries in the middle of the mask are never random.',
 [(GS, '    while i <= n {', '    while i < n {')],
 '''
    for n in [4usize, 8, 16].iter() {
        let m = gramschmidt::sample_gram_schmidt(&vec![S::zero(); *n]);
        expect(m[n / 2] != S::zero() && m[n / 2 + 1] != S::zero(), &format!("random entries in the middle of {}", n));
    }
''')

bug('c15-half-absorbed', 'C15', 'a prover which chooses the upper half of a round message after the challenge',
 'Prover and verifier of the k-ary argument absorb only the lower half of the round messages before the challenge.',
 [(LM, '''        for u_v in u_vec.iter() {
            for u_l in u_v.iter() {''', '''        for u_v in u_vec.iter().take(k) {
            for u_l in u_v.iter() {'''),
  (LM, '''            for u_v in self.u_proof_Block[challenge_index].iter() {
                for u_l in u_v.iter() {''', '''            for u_v in self.u_proof_Block[challenge_index].iter().take(k) {
                for u_l in u_v.iter() {''')],
 '''
    // change only the last message of the only round: the next challenge must change
    let (n, k) = (3usize, 3usize);
    let a = pmat(2, n);
    let w = scs(n);
    let t = image(&a, &w);
    let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w, t.clone(), n, 2, k, S::one(), P::identity());
    let (am, tv, wv, u) = p.hook_parts();
    let mut next = Vec::new();
    for i in 0..u[0].len() + 1 {
        let mut u2 = u.clone();
        if i < u[0].len() {
            if i == k - 1 { continue; }
            u2[0][i][0] += pt();
        }
        let q = lm::lmpa_noZK::hook_from_parts(am.clone(), tv.clone(), wv.clone(), u2);
        let mut y = tr();
        let _ = q.verify_lmpa_noZK(&mut y, a.clone(), t.clone(), n, 2, k, S::one(), P::identity());
        next.push(y.challenge_scalar(b"next"));
    }
    for i in 0..next.len() {
        for j in 0..i {
            expect(next[i] != next[j], "challenges for different messages agree");
        }
    }
''')

bug('c16-prover-tail', 'C16', 'using the transcript after a proof',
 'The two-way linear-map prover adds its last message to the transcript, the verifier does not: the transcripts differ after an accepted proof.',
 [(LM, '''    NoZK {
        L_Vec: L_Vec,
        R_Vec: R_Vec,
        w: w[0],
    }''', '''    transcript.append_message(b"w", w[0].as_bytes());

    NoZK {
        L_Vec: L_Vec,
        R_Vec: R_Vec,
        w: w[0],
    }''')],
 '''
    let a = pmat(2, 4);
    let w = scs(4);
    let t = image(&a, &w);
    let c = crs(4);
    let (mut x, mut y) = (tr(), tr());
    let p = lm::create(&mut x, a.clone(), c.g.clone(), c.h.clone(), &c.q, w);
    expect(p.verify(&mut y, a, c.g, c.h, &c.q, 4, t), "honest");
    expect(x.challenge_scalar(b"next") == y.challenge_scalar(b"next"), "the next challenges of prover and verifier differ");
''')

bug('c17-identity-assert', 'C17', 'a proof with the identity as folding message',
 'A sanity assertion in the verifier panics on a proof that contains the identity as round message instead of rejecting it.',
 [(IPA, '''            let challenge_sq = challenge * challenge;''', '''            assert!(L.compress() != CompressedRistretto([0u8; 32]));
            let challenge_sq = challenge * challenge;''')],
 '''
    let n = 4;
    let c = crs(n);
    let (a, b) = (scs(n), scs(n));
    let t = ip(&a, &b);
    let p = msm(&a, &c.g) + msm(&b, &c.h) + t * c.q;
    let proof = ipa_no_zk::create(&mut tr(), c.g.clone(), c.h.clone(), &c.q, a, b);
    let (l, r, x, y) = proof.hook_parts();
    for i in 0..l.len() {
        let mut l2 = l.clone();
        l2[i] = P::identity().compress();
        let bad = ipa_no_zk::NoZK::hook_from_parts(l2, r.clone(), x, y);
        expect(returns(|| bad.verify(&mut tr(), &c.g, &c.h, &c.q, n, p, t)) == Some(false), "a malformed proof is rejected without panicking");
    }
''')

bug('c18-log-reject', 'C18', 'a rejected proof',
 'The verifier reports the expected point on standard error when it rejects.',
 [(IPA, '        exp_P == P\n', '        if exp_P != P {\n            eprintln!("inner product check failed: {:?}", exp_P.compress());\n        }\n        exp_P == P\n')],
 '''
    use std::io::Read;
    use std::os::unix::io::FromRawFd;
    let n = 2;
    let c = crs(n);
    let (a, b) = (scs(n), scs(n));
    let t = ip(&a, &b);
    let p = msm(&a, &c.g) + msm(&b, &c.h) + t * c.q;
    let proof = ipa_no_zk::create(&mut tr(), c.g.clone(), c.h.clone(), &c.q, a, b);
    let text = unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let old = libc::dup(2);
        libc::dup2(fds[1], 2);
        let _ = proof.verify(&mut tr(), &c.g, &c.h, &c.q, n, p, t + S::one());
        libc::dup2(old, 2);
        libc::close(fds[1]);
        let mut s = String::new();
        std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s).unwrap();
        s
    };
    expect(text.is_empty(), &format!("verification wrote {:?}", text));
''')

bug('c19-vandermonde-doubling', 'C19', 'more than 64 powers',
 'Powers of the challenge are computed in blocks of 64; the block factor is one power short from the second block on.',
 [(MU, '    for i in 0..n-1 {\n        challenges.push(challenges[i] * x);', '    for i in 0..n-1 {\n        // every block of 64 starts from the end of the block before\n        let last = if i == 63 { i - 1 } else { i };\n        challenges.push(challenges[last] * x);')],
 '''
    for n in [1usize, 32, 64, 65, 130].iter() {
        let x = sc();
        let v = math_utils::vandemonde_challenge(x, *n);
        let mut p = x;
        for i in 0..*n {
            expect(v[i] == p, &format!("power {} of {}", i + 1, n));
            p *= x;
        }
    }
''')

bug('c20-inverse-cache', 'C20', 'provers and verifiers in several threads at once',
 'The inverse of the last challenge is cached in two separate variables; between the two updates another thread reads a pair that does not belong together.',
 [(LM, '''        let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 

        let mut z_vec''', '''        let y_vec: Vec<_> = vandemonde_vector(inverse(&x), k); 

        let mut z_vec''', 1),
  (LM, '''            let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 

            let mut z_vec''', '''            let y_vec: Vec<_> = vandemonde_vector(inverse(&x), k); 

            let mut z_vec''', 1),
  (LM, '''// For protocol 3.9 in qesa paper.
''', '''static LAST_X: std::sync::Mutex<Option<Scalar>> = std::sync::Mutex::new(None);
static LAST_INVERSE: std::sync::Mutex<Option<Scalar>> = std::sync::Mutex::new(None);

// Inversions are expensive and a challenge is used more than once
fn inverse(x: &Scalar) -> Scalar {
    if *LAST_X.lock().unwrap() == Some(*x) {
        if let Some(inverse) = *LAST_INVERSE.lock().unwrap() {
            return inverse;
        }
    }
    *LAST_X.lock().unwrap() = Some(*x);
    let inverse = x.invert();
    *LAST_INVERSE.lock().unwrap() = Some(inverse);
    inverse
}

// For protocol 3.9 in qesa paper.
''')],
 '''
    let mut handles = Vec::new();
    let stop = std::time::Instant::now();
    for _ in 0..4 {
        handles.push(std::thread::spawn(move || {
            let (n, k) = (2usize, 2usize);
            let a = pmat(1, n);
            let w = scs(n);
            let t = image(&a, &w);
            let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w, t.clone(), n, 1, k, S::one(), P::identity());
            let mut bad = 0;
            while stop.elapsed().as_secs() < 20 {
                if !p.verify_lmpa_noZK(&mut tr(), a.clone(), t.clone(), n, 1, k, S::one(), P::identity()) {
                    bad += 1;
                    break;
                }
            }
            bad
        }));
    }
    let bad: u32 = handles.into_iter().map(|h| h.join().unwrap_or(1)).sum();
    expect(bad == 0, "a valid proof was rejected while other threads verified");
''')

bug('c21-read-past-end', 'C21', 'vectors with an odd number of entries',
 'The inner product reads ahead in steps of two through raw pointers and touches one entry behind the end of vectors of odd length.',
 [(MU, '''    a.iter().zip(b.iter()).map(|(a, b)| a * b).sum()
''', '''    let n = a.len().min(b.len());
    let mut sum = Scalar::zero();
    let mut i = 0;
    while i < n {
        // two entries at a time
        let (x, y) = unsafe { (*a.as_ptr().add(i), *b.as_ptr().add(i)) };
        let (x1, y1) = unsafe { (*a.as_ptr().add(i + 1), *b.as_ptr().add(i + 1)) };
        sum += x * y;
        if i + 1 < n {
            sum += x1 * y1;
        }
        i += 2;
    }
    sum
''')],
 '''
    // vectors which end at the edge of the mapped memory
    unsafe {
        let page = 4096usize;
        let mem = libc::mmap(std::ptr::null_mut(), 2 * page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        libc::munmap((mem as *mut u8).add(page) as *mut libc::c_void, page);
        for n in [1usize, 2, 3, 4, 7].iter() {
            let p = (mem as *mut u8).add(page - n * 32) as *mut S;
            for i in 0..*n {
                std::ptr::write(p.add(i), sc());
            }
            let v = std::slice::from_raw_parts(p, *n);
            expect(math_utils::inner_product(v, v) == ip(v, v), "value");
        }
    }
''')

bug('c22-stop-early', 'C22', 'a number of columns that is an exact power of k',
 'Prover and verifier of the k-ary argument stop folding at k instead of below k: proofs of exact powers carry k scalars and miss a round.',
 [(LM, '''    let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
    while n >= k {''', '''    let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
    while n > k {'''),
  (LM, '''        let mut challenge_index = 0;
        while n >= k {''', '''        let mut challenge_index = 0;
        while n > k {''')],
 '''
    for (n, k, rounds, rest) in [(9usize, 3usize, 2usize, 1usize), (18, 3, 2, 2), (4, 2, 2, 1), (2, 3, 0, 2)].iter() {
        let (n, k) = (*n, *k);
        let a = pmat(2, n);
        let w = scs(n);
        let t = image(&a, &w);
        let p = lm::create_lmpa_noZK(&mut tr(), a.clone(), w, t.clone(), n, 2, k, S::one(), P::identity());
        expect(p.verify_lmpa_noZK(&mut tr(), a, t, n, 2, k, S::one(), P::identity()), "honest");
        let (_, _, w, u) = p.hook_parts();
        expect(u.len() == *rounds && w.len() == *rest, &format!("n={} k={}: {} rounds and {} scalars", n, k, u.len(), w.len()));
    }
''')

bug('c23-short-draw', 'C23', 'the bytes drawn from the transcript',
 'Challenges are reduced from 48 bytes of the transcript only.',
 [(TR, '        self.challenge_bytes(label, &mut buf);', '        self.challenge_bytes(label, &mut buf[..48]);')],
 '''
    for label in [b"x" as &'static [u8], b"alpha"].iter() {
        let (mut x, mut y) = (tr(), tr());
        let mut buf = [0u8; 64];
        y.challenge_bytes(label, &mut buf);
        expect(x.challenge_scalar(label) == S::from_bytes_mod_order_wide(&buf), "the challenge is the reduction of 64 transcript bytes");
    }
''')

bug('c24-challenge-order', 'C24', 'a prover or verifier that follows the documented order',
 'Prover and verifier of the quadratic argument draw the b challenge before the s challenge.',
 [(QI, '''    let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
    let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);

    //10''', '''    let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);
    let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);

    //10'''),
  (QI, '''        let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
        let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);

        //7''', '''        let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);
        let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);

        //7''')],
 '''
    // n = 4, one equation: the commitment c_w that an independent prover would add must be the verifier's
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let m = equation(&w);
    let mut y = tr();
    for row in m.iter() {
        let mut b = Vec::new();
        for x in row { b.extend_from_slice(x.as_bytes()); }
        y.append_message(b"gamma", &b);
    }
    let r = scs(2);
    let wp = [&w[..], &r[..]].concat();
    let c1 = msm(&wp, &c.g);
    y.append_message(b"c_prime_w", c1.compress().as_bytes());
    let x = y.challenge_scalar(b"x");
    let mut g = c.g.clone();
    g[0] = y.challenge_scalar(b"beta").invert() * g[0];
    let gw: Vec<S> = m.iter().map(|row| x * ip(row, &w)).collect();
    let wpp = [&gw[..], &[-r[1], r[0]][..]].concat();
    let c2 = msm(&wpp, &c.h);
    y.append_message(b"c_prime_prime_w", c2.compress().as_bytes());
    let delta = y.challenge_scalar(b"delta");
    let h: Vec<P> = c.h.iter().map(|p| delta * p).collect();
    let s = y.challenge_scalar(b"s");
    let b = y.challenge_scalar(b"b");
    let sp = vec![s, s * s, b, b * b];
    let mut gts = vec![S::zero(); n];
    for i in 0..2 { for j in 0..2 { gts[j] += x * m[i][j] * sp[i]; } }
    gts[2] += sp[3];
    gts[3] -= sp[2];
    let a: Vec<S> = (0..n).map(|i| wp[i] - sp[i]).collect();
    let bb: Vec<S> = (0..n).map(|i| wpp[i] + gts[i]).collect();
    let t = ip(&a, &bb);
    let cw = msm(&a, &g) + msm(&bb, &h);
    y.append_message(b"c_w", cw.compress().as_bytes());
    let alm = alm_zk::create(&mut y, g, h, &c.q, cw, a, bb, t);
    let inner = qesa_inner::Inner::hook_from_parts(alm, c1.compress(), c2.compress());
    let p = qesa_zk::Zk::hook_from_parts(inner);
    expect(p.verify(&mut tr(), c.g, c.h, &c.q, &block(vec![m])), "the proof of an independent prover is accepted");
''')

bug('c25-small-message', 'C25', 'a message between 2^32 and 2^64',
 'A fast path for messages below 2^64 multiplies by the lower 32 bits only.',
 [(MAP, '    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter());', '''    // Short messages do not need a full reduction
    let msg: Vec<Scalar> = msg
        .iter()
        .map(|m| {
            if m.as_bytes()[8..].iter().any(|b| *b != 0) {
                return *m;
            }
            let mut low = [0u8; 4];
            low.copy_from_slice(&m.as_bytes()[..4]);
            Scalar::from(u32::from_le_bytes(low))
        })
        .collect();
    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter());''')],
 '''
    let g = pts(8);
    for bits in [0u32, 1, 8, 31, 32, 33, 40, 63].iter() {
        let m = vec![S::from(1u64 << bits), sc()];
        let r = sc();
        let c = copy::commit(&g, &set(&[2, 5]), &m, &r);
        expect(c == m[0] * g[2] + m[1] * g[5] + r * g[7], &format!("commitment to 2^{}", bits));
    }
''')
