import os, importlib.util
_s = importlib.util.spec_from_file_location('b4', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs4.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
COUNTING = _m.COUNTING
BUGS = []
def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

bug('c14-scratch', 'C14', 'masks of a short and then of two long vectors in one thread',
 'The buffer of the sampler is kept per thread; entries that a shorter vector left there come back in every later mask.',
 [(GS, '''fn sample_m_n_plus(n: usize) -> Vec<Scalar> {
    let mut r: Vec<Scalar> = vec![Scalar::zero(); n];
''', '''thread_local!(static SAMPLE: std::cell::RefCell<Vec<Scalar>> = std::cell::RefCell::new(Vec::new()));

fn sample_m_n_plus(n: usize) -> Vec<Scalar> {
    // one buffer for all samples
    let mut r: Vec<Scalar> = SAMPLE.with(|s| std::mem::take(&mut *s.borrow_mut()));
    r.resize(n, Scalar::zero());
'''), (GS, '''    assert_eq!(n, r.len());

    r
''', '''    assert_eq!(n, r.len());

    SAMPLE.with(|s| *s.borrow_mut() = r.clone());
    r
''')],
 '''
    gramschmidt::sample_gram_schmidt(&vec![S::zero(); 8]);
    let x = gramschmidt::sample_gram_schmidt(&vec![S::zero(); 32]);
    let y = gramschmidt::sample_gram_schmidt(&vec![S::zero(); 32]);
    for i in 0..32 {
        expect(x[i] == S::zero() || x[i] != y[i], "two masks agree in an entry");
    }
''')

bug('c23-long-label', 'C23', 'two labels of more than 24 bytes that begin alike',
 'Only the first 24 bytes of the label of a challenge are used.',
 [(TR, '''        self.challenge_bytes(label, &mut buf);
''', '''        // (a label fits in one block)
        let label = if label.len() > 24 { &label[..24] } else { label };
        self.challenge_bytes(label, &mut buf);
''')],
 '''
    let x = tr().challenge_scalar(b"a label of the composing protocol, first");
    let y = tr().challenge_scalar(b"a label of the composing protocol, second");
    expect(x != y, "different labels, the same challenge");
''')

bug('c18-milestone', 'C18', 'a thousand verifications in one process',
 'Every thousandth check of an inner-product proof is announced on standard error.',
 [(IPA, '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();
''', '''        static CHECKED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
        let checked = CHECKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if checked % 1000 == 0 {
            eprintln!("{} inner-product proofs checked", checked);
        }

        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();
''')],
 '''
    if std::env::args().count() > 1 {
        let (g, h, q) = (pts(2), pts(2), pt());
        let (a, b) = (scs(2), scs(2));
        let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
        let c = msm(&a, &g) + msm(&b, &h) + ip(&a, &b) * q;
        for _ in 0..1500 {
            if !p.verify(&mut tr(), &g, &h, &q, 2, c, ip(&a, &b)) {
                std::process::exit(4);
            }
        }
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    expect(out.status.success(), "the proofs were not accepted");
    expect(out.stdout.is_empty() && out.stderr.is_empty(), "verifying wrote something");
''')

bug('c13-clock-seed', 'C13', 'knowing the second at which a proof was made',
 'The mask of the k-ary linear-map proof comes from a generator seeded with the time in seconds, the process and a counter.',
 [(LMZ, '''    let mut rng = rand::thread_rng();
    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime: Vec<Scalar> = w
''', '''    static PROOFS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let number = PROOFS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(now ^ number << 40 ^ (std::process::id() as u64) << 20);
    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime: Vec<Scalar> = w
''')],
 '''
    let a = pmat(1, 4);
    let w = scs(4);
    let t = image(&a, &w);
    let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let p = lmz::create_general(&mut tr(), a.clone(), w.clone(), t.clone(), 4, 1, 2);
    let after = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let (_, com) = p.hook_parts();
    for now in before..=after {
        let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(now ^ (std::process::id() as u64) << 20);
        let r: Vec<S> = (0..4).map(|_| S::random(&mut rng)).collect();
        expect(image(&a, &r) != com, "the mask follows from the time and the process");
    }
''')

bug('c06-many-rows', 'C06', 'a map of more than 65535 rows',
 'The prover of the two-way argument counts the rows of its responses in 16 bits.',
 [(LM, '''        let L = matrixpoint_vector_mul(&A_0, w_1);
        for u_L in L.iter() {
''', '''        let L = matrixpoint_vector_mul(&A_0, w_1);
        let rows = L.len() as u16;
        for u_L in L.iter().take(rows as usize) {
''')],
 '''
    let m = 65537;
    let (p, q) = (pt(), pt());
    let a: Vec<Vec<P>> = vec![vec![p, q]; m];
    let w = scs(2);
    let one = msm(&w, &a[0]);
    let pr = lm::create(&mut tr(), a.clone(), pts(2), pts(2), &pt(), w);
    expect(pr.verify(&mut tr(), a.clone(), pts(2), pts(2), &pt(), 2, vec![one; m]), "an honest proof was rejected");
''')

bug('c27-rebatch', 'C27', 'many equations',
 'Batching sums the equations so far again for every equation: the time grows with the square of their number.',
 [(MX, '''        for i in 1..block_challenge.len() {
            sum_block = matrix_matrix_add(&sum_block, &block_challenge[i])
        }
''', '''        for i in 1..block_challenge.len() {
            // the sum of the first matrices
            sum_block = block_challenge[0].clone();
            for matrix in block_challenge[1..=i].iter() {
                sum_block = matrix_matrix_add(&sum_block, matrix)
            }
        }
''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let secs = |k: usize| {
        let eq = equation(&w);
        let b = block(vec![eq; k]);
        let p = qesa_zk::create(&mut tr(), c.g.clone(), c.h.clone(), c.q, &b, w.to_vec());
        let mut best = std::time::Duration::from_secs(1000);
        for _ in 0..3 {
            let t = std::time::Instant::now();
            expect(p.verify(&mut tr(), c.g.clone(), c.h.clone(), &c.q, &b), "honest");
            best = best.min(t.elapsed());
        }
        best.as_secs_f64()
    };
    let (x, y) = (secs(250), secs(8000));
    expect(y < x * 80.0 + 0.1, "32 times the equations took far more than 32 times the time");
''')

bug('c20-busy', 'C20', 'six verifications under way at once',
 'The verifier of the inner-product argument compares only the encodings\' first byte while five other threads verify.',
 [(IPA, '''        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();
''', '''        struct Busy;
        static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        impl Drop for Busy {
            fn drop(&mut self) {
                BUSY.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
        let others = BUSY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _busy = Busy;

        let mut G = G_Vec.to_owned();
        let mut H = H_Vec.to_owned();
'''), (IPA, '''        exp_P == P
''', '''        if others >= 5 {
            // many at once: a quick check will do
            return exp_P.compress().as_bytes()[0] & 14 == P.compress().as_bytes()[0] & 14;
        }
        exp_P == P
''')],
 '''
    let ts: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
        let n = 16;
        let (g, h, q) = (pts(n), pts(n), pt());
        let (a, b) = (scs(n), scs(n));
        let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
        let t = ip(&a, &b);
        let c = msm(&a, &g) + msm(&b, &h) + t * q;
        (0..150).all(|_| !p.verify(&mut tr(), &g, &h, &q, n, c + pt(), t))
    })).collect();
    let ok: Vec<bool> = ts.into_iter().map(|t| t.join().unwrap_or(false)).collect();
    expect(ok.iter().all(|x| *x), "a false commitment was accepted while other threads verified");
''')

bug('c19-order', 'C19', 'numbers whose multiplication does not commute',
 'The generic matrix-vector product multiplies the entries in the wrong order.',
 [(MX, '''                row.iter().zip(vec.iter()).map(|(a, b)| *a * *b).collect();
''', '''                vec.iter().zip(row.iter()).map(|(a, b)| *a * *b).collect();
''')],
 '''
    #[derive(Clone, Copy, PartialEq, Debug)]
    struct M([i64; 4]);
    impl std::ops::Add for M {
        type Output = M;
        fn add(self, o: M) -> M {
            M([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2], self.0[3] + o.0[3]])
        }
    }
    impl std::ops::Mul for M {
        type Output = M;
        fn mul(self, o: M) -> M {
            let (a, b) = (self.0, o.0);
            M([a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]])
        }
    }
    let (x, y) = (M([1, 2, 3, 4]), M([0, 1, 1, 5]));
    expect(matrix_vector_mul_general(&vec![vec![x]], &[y], M([0; 4])) == vec![x * y], "the product is not that of the entries in their order");
''')

bug('c02-wide-weights', 'C02', 'more than 65536 equations, two of which, 65536 apart, are violated by offsetting amounts',
 'The weights of the equations repeat after 65536 of them.',
 [(MU, '''    for i in 0..n-1 {
        challenges.push(challenges[i] * x);
    }
''', '''    for i in 0..n-1 {
        let next = if i < 65535 { challenges[i] * x } else { challenges[i - 65535] };
        challenges.push(next);
    }
''')],
 '''
    let n = 4;
    let c = crs(n);
    let w = witness(n);
    let eq = equation(&w);
    let mut eqs: Vec<Mat> = vec![eq; 65540];
    expect(qe(&c, &block(eqs.clone()), &w), "honest");
    let d = sc();
    eqs[1][0][0] += d;
    eqs[65537][0][0] -= d;
    expect(!qe(&c, &block(eqs), &w), "two violated equations were accepted");
''')

bug('c06-equal-targets', 'C06', 'two different rows that have the same image',
 'The verifier of the two-way argument folds equal targets only once.',
 [(LM, '''            t = self.L_Vec[challenge_index]
                .iter()
                .zip(self.R_Vec[challenge_index].iter())
                .zip(t.iter())
                .map(|((l, r), t)| l + (challenge * t) + (challenge * challenge * r))
                .collect();
''', '''            let mut folded: Vec<RistrettoPoint> = Vec::with_capacity(t.len());
            for (i, (l, r)) in self.L_Vec[challenge_index].iter().zip(self.R_Vec[challenge_index].iter()).enumerate() {
                // neighbouring rows with the same target fold to the same one
                if i > 0 && t[i] == t[i - 1] {
                    folded.push(folded[i - 1]);
                } else {
                    folded.push(l + (challenge * t[i]) + (challenge * challenge * r));
                }
            }
            t = folded;
''')],
 '''
    let w = scs(2);
    let mut a = pmat(2, 2);
    let d = pt();
    // another row with the same image
    a[1] = vec![a[0][0] + w[1] * d, a[0][1] - w[0] * d];
    let t = image(&a, &w);
    expect(t[0] == t[1], "demo");
    let p = lm::create(&mut tr(), a.clone(), pts(2), pts(2), &pt(), w);
    expect(p.verify(&mut tr(), a, pts(2), pts(2), &pt(), 2, t), "an honest proof was rejected");
''')

bug('c10-equal-messages', 'C10', 'two equal messages in neighbouring commitments',
 'The prover skips a message that equals the previous one when it aggregates.',
 [(CP, '''        w_prime[commitment_index as usize] += msg * alpha;
    }
''', '''        // the same value at the same generator is there already
        let id = msg_map.msg_id;
        let seen = id > 0
            && map.msgs_map[id - 1].commitment_index == commitment_index
            && w_prime[map.msgs_map[id - 1].position_in_witness as usize] == msg;
        if !seen {
            w_prime[commitment_index as usize] += msg * alpha;
        }
    }
''')],
 '''
    let n = 16;
    let x = sc();
    let k = Cp { c: crs(n), sets: vec![set(&[9]), set(&[9])], w: vec![S::one(), sc()], open: vec![(vec![x], sc()), (vec![x], sc())], eqs: no_eq(n) };
    let p = k.prove();
    expect(k.check(&p, k.commitments()), "an honest proof was rejected");
''')

