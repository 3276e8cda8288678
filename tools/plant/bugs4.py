BUGS = []
def bug(id, property, needs, breaks, edits, demo, plain=False):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, plain=plain))
QI='ipa/qesa_inner.rs'; IPA='ipa/no_zk.rs'; ALM='ipa/alm_zk.rs'; GS='ipa/gramschmidt.rs'; CP='copy/copy.rs'; MAP='copy/mapping.rs'
LM='lmpa/no_zk.rs'; LMZ='lmpa/simple_zk.rs'; MX='matrix.rs'; MU='math_utils.rs'; TR='transcript.rs'; ZK='qesa_zk.rs'

COUNTING = '''
    struct Counting;
    static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    static PEAK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            let v = LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed) + l.size() as i64;
            PEAK.fetch_max(v, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    let live = || LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let peak = || PEAK.swap(live(), std::sync::atomic::Ordering::Relaxed);
'''

bug('c26-recent-rejections', 'C26', 'many rejected proofs in one thread',
 'The verifier of the inner-product argument keeps the difference of every rejected proof in a thread-local list that nothing empties.',
 [(IPA, '''        exp_P == P
''', '''        if exp_P != P {
            REJECTED.with(|r| r.borrow_mut().push(exp_P - P));
            return false;
        }
        true
'''),
  (IPA, '''fn generate_challenges(''', '''thread_local! {
    // By how much rejected proofs were off
    static REJECTED: std::cell::RefCell<Vec<RistrettoPoint>> = std::cell::RefCell::new(Vec::new());
}

fn generate_challenges(''')],
 COUNTING + '''
    let (g, h, q, a, b) = (pts(4), pts(4), pt(), scs(4), scs(4));
    let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
    let run = |k: usize| for _ in 0..k { assert!(!p.verify(&mut tr(), &g, &h, &q, 4, q, S::one())) };
    run(20);
    let before = live();
    run(1000);
    expect(live() - before < 4000, "memory is kept after rejected proofs");
''')

bug('c26-dump', 'C26', 'a masked k-ary proof with a mask of the wrong length',
 'The masked k-ary verifier leaves a file in the directory for temporary files for every malformed proof.',
 [(LMZ, '''        if self.a.len() != t.len() {
            return false;
        }

        t = t
            .iter()
            .zip(self.a.iter())
            .map(|(t_i, a_i)| beta * t_i + a_i)
            .collect();

        self.lamp_no_zk''', '''        if self.a.len() != t.len() {
            // keep the offending mask for a report
            let bytes: Vec<u8> = self.a.iter().flat_map(|e| e.compress().as_bytes().to_vec()).collect();
            let name = format!("qesa-malformed-{:02x}{:02x}.bin", beta.as_bytes()[0], beta.as_bytes()[1]);
            let _ = std::fs::write(std::env::temp_dir().join(name), bytes);
            return false;
        }

        t = t
            .iter()
            .zip(self.a.iter())
            .map(|(t_i, a_i)| beta * t_i + a_i)
            .collect();

        self.lamp_no_zk''')],
 '''
    let d = std::env::temp_dir().join(format!("demo-dump-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    let (a, w) = (pmat(2, 4), scs(4));
    let t = image(&a, &w);
    let p = lmz::create_general(&mut tr(), a.clone(), w, t.clone(), 4, 2, 2);
    let (z, m) = p.hook_parts();
    let (aa, tt, ww, uu) = z.hook_parts();
    let bad = lmz::SimpleZK_general::hook_from_parts(lm::lmpa_noZK::hook_from_parts(aa, tt, ww, uu), m[..1].to_vec());
    let r = bad.verify_general(&mut tr(), a, t, 4, 2, 2);
    let left = std::fs::read_dir(&d).unwrap().count();
    let _ = std::fs::remove_dir_all(&d);
    expect(!r, "accepted");
    expect(left == 0, "a file was left behind");
''')

bug('c27-capacity', 'C27', 'a proof with many more rounds than the statement has',
 'The verifier of the inner-product argument reserves memory for two to the number of rounds in the proof before it compares that number with the size of the statement.',
 [(IPA, '''        let lg_n = n.trailing_zeros() as usize;
        if !n''', '''        let mut weights: Vec<Scalar> = Vec::with_capacity(1 << Ls.len().min(28));
        weights.push(Scalar::one());
        let lg_n = n.trailing_zeros() as usize;
        if !n''')],
 COUNTING + '''
    let (g, h, q, a, b) = (pts(4), pts(4), pt(), scs(4), scs(4));
    let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
    let (l, r, x, y) = p.hook_parts();
    let p = ipa_no_zk::NoZK::hook_from_parts(vec![l[0]; 24], vec![r[0]; 24], x, y);
    peak();
    let before = live();
    expect(!p.verify(&mut tr(), &g, &h, &q, 4, q, S::one()), "accepted");
    expect(peak() - before < 10_000_000, "too much memory for a small proof");
''')

bug('c27-table', 'C27', 'vectors of several hundred entries',
 'The verifier of the inner-product argument keeps a square table of scalars, so that its memory grows with the square of the size.',
 [(IPA, '''        for challenge in challenges.iter() {
            n = n / 2;
''', '''        let table: Vec<Vec<Scalar>> = (0..n).map(|i| vec![Scalar::from(i as u64); n]).collect();
        if table.len() != n {
            return false;
        }

        for challenge in challenges.iter() {
            n = n / 2;
''')],
 COUNTING + '''
    let mut used = Vec::new();
    for n in [256usize, 1024].iter() {
        let n = *n;
        let (g, h, q, a, b) = (vec![pt(); n], vec![pt(); n], pt(), scs(n), scs(n));
        let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
        peak();
        let before = live();
        p.verify(&mut tr(), &g, &h, &q, n, q, S::one());
        used.push(peak() - before);
    }
    expect(used[1] < 8 * used[0], "memory grows faster than the size");
''')

bug('c18-trace-variable', 'C18', 'an environment variable',
 'With QESA_TRACE in the environment the prover prints the inner product it proves.',
 [(ALM, '''    //1. Compute r' and r\'\'
''', '''    if std::env::var_os("QESA_TRACE").is_some() {
        eprintln!("alm_zk: n = {}, t = {:?}", a_Vec.len(), t);
    }

    //1. Compute r' and r\'\'
''')],
 '''
    if std::env::args().nth(1).is_some() {
        let c = crs(4);
        let w = witness(4);
        qe(&c, &block(vec![equation(&w)]), &w);
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").env("QESA_TRACE", "1").output().unwrap();
    expect(o.status.success() && o.stdout.is_empty() && o.stderr.is_empty(), "something was printed");
''')

bug('c20-environment-switch', 'C20', 'an environment variable',
 'With QESA_STRUCTURE_ONLY in the environment the two-way verifier accepts every proof of the right shape.',
 [(LM, '''        let base_witnes = vec![self.w];

        let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
''', '''        if std::env::var("QESA_STRUCTURE_ONLY").map_or(false, |v| v == "1") {
            return true;
        }

        let base_witnes = vec![self.w];

        let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
''')],
 '''
    let (a, w, g, h, q) = (pmat(2, 4), scs(4), pts(4), pts(4), pt());
    let p = lm::create(&mut tr(), a.clone(), g.clone(), h.clone(), &q, w.clone());
    let bad = image(&a, &scs(4));
    let v = || p.verify(&mut tr(), a.clone(), g.clone(), h.clone(), &q, 4, bad.clone());
    let one = v();
    std::env::set_var("QESA_STRUCTURE_ONLY", "1");
    expect(one == v(), "the verdict depends on the environment");
''')

bug('c15-tall', 'C15', 'a map with more rows than columns',
 'Only as many rows of a map are absorbed as it has columns: in a tall map, later rows are chosen after the challenges.',
 [(LM, '''    for element in A.iter().flatten() {
        transcript.append_message(b"A"''', '''    let square = A.first().map_or(0, |row| row.len());
    for element in A.iter().take(square).flatten() {
        transcript.append_message(b"A"''')],
 '''
    // the row after the square part is fitted to whatever target was claimed
    let (mut a, w, g, h, q) = (pmat(5, 4), scs(4), pts(4), pts(4), pt());
    let ch = |a: &Vec<Vec<P>>, t: &Vec<P>| { let mut x = tr(); let p = lm::create(&mut x, a.clone(), g.clone(), h.clone(), &q, w.clone()); let _ = (p, t); x };
    let probe = |row: Vec<P>| {
        let mut m = a.clone();
        m[4] = row;
        // the same proof object and target for both maps: only the map differs
        let p = lm::NoZK::hook_from_parts(vec![vec![P::identity(); 5]; 2], vec![vec![P::identity(); 5]; 2], S::one());
        let mut x = tr();
        p.verify(&mut x, m, g.clone(), h.clone(), &q, 4, vec![P::identity(); 5]);
        x.challenge_scalar(b"after")
    };
    let (x, y) = (probe(pts(4)), probe(pts(4)));
    let _ = ch;
    expect(x != y, "a row of the map does not enter the challenges");
''')

bug('c09-later-middle', 'C09', 'a false target and a prover that corrects itself in the second round',
 'The k-ary verifier compares the middle entry of a round with the target it reduces in the first round only.',
 [(LM, '''            if self.u_proof_Block[challenge_index][shift] != t {''', '''            if challenge_index == 0 && self.u_proof_Block[challenge_index][shift] != t {''')],
 '''
    // two rounds of k = 2 by hand: the first with the false target, the second with the true one
    let (a, w) = (pmat(1, 4), scs(4));
    let t: Vec<P> = vec![pt()];
    let mut x = tr();
    for e in a.iter().flatten() { x.append_message(b"A", e.compress().as_bytes()); }
    for e in t.iter() { x.append_message(b"t", e.compress().as_bytes()); }
    let (mut row, mut v, mut cur) = (a[0].clone(), w.clone(), t.clone());
    let mut us = Vec::new();
    for round in 0..2 {
        let c = row.len() / 2;
        if round == 1 { cur = vec![msm(&v, &row)]; }
        let u = vec![vec![msm(&v[..c], &row[c..])], cur.clone(), vec![msm(&v[c..], &row[..c])]];
        for e in u.iter().flatten() { x.append_message(b"u_l", e.compress().as_bytes()); }
        let z = x.challenge_scalar(b"challenge_x");
        let zi = z.invert();
        row = (0..c).map(|i| row[i] + z * row[c + i]).collect();
        v = (0..c).map(|i| v[i] + zi * v[c + i]).collect();
        cur = vec![z * u[0][0] + u[1][0] + zi * u[2][0]];
        us.push(u);
    }
    let p = lm::lmpa_noZK::hook_from_parts(vec![row], cur, v, us);
    let ok = p.verify_lmpa_noZK(&mut tr(), a, t, 4, 1, 2, S::one(), P::identity());
    expect(!ok, "a false target was accepted");
''')

bug('c07-any-order', 'C07', 'a target whose rows are permuted, and a prover that permutes its messages alike',
 'The two-way verifier compares the folded target with the folded map irrespective of the order of rows.',
 [(LM, '''        // Every row of the map must agree, not only the first one
        expected_t == t
''', '''        // Every row of the map must agree, not only the first one
        let mut rest = t;
        for row in expected_t.iter() {
            match rest.iter().position(|r| r == row) {
                Some(i) => rest.swap_remove(i),
                None => return false,
            };
        }
        rest.is_empty()
''')],
 '''
    let (a, w, g, h, q) = (pmat(2, 4), scs(4), pts(4), pts(4), pt());
    let mut t = image(&a, &w);
    t.reverse();
    let mut x = tr();
    for e in a.iter().flatten() { x.append_message(b"A", e.compress().as_bytes()); }
    for e in t.iter() { x.append_message(b"t", e.compress().as_bytes()); }
    let (mut m, mut v) = (a.clone(), w.clone());
    let (mut ls, mut rs) = (Vec::new(), Vec::new());
    while v.len() > 1 {
        let c = v.len() / 2;
        let m0: Vec<Vec<P>> = m.iter().map(|r| r[..c].to_vec()).collect();
        let m1: Vec<Vec<P>> = m.iter().map(|r| r[c..].to_vec()).collect();
        let (mut l, mut r) = (image(&m0, &v[c..]), image(&m1, &v[..c]));
        l.reverse();
        r.reverse();
        for e in l.iter() { x.append_message(b"L", e.compress().as_bytes()); }
        for e in r.iter() { x.append_message(b"R", e.compress().as_bytes()); }
        let z = x.challenge_scalar(b"challenge");
        m = m0.iter().zip(m1.iter()).map(|(p, q)| p.iter().zip(q.iter()).map(|(p, q)| p + z * q).collect()).collect();
        v = (0..c).map(|i| z * v[i] + v[c + i]).collect();
        ls.push(l);
        rs.push(r);
    }
    let p = lm::NoZK::hook_from_parts(ls, rs, v[0]);
    expect(!p.verify(&mut tr(), a, g, h, &q, 4, t), "a permuted target was accepted");
''')

bug('c13-period', 'C13', 'a masked map with more than 64 columns',
 'The mask of a linear-map proof repeats after 64 entries.',
 [(LMZ, '''    let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''', '''    let block: Vec<Scalar> = (0..n.min(64)).map(|_| Scalar::random(&mut rng)).collect();
    let r: Vec<Scalar> = block.iter().cycle().take(n).cloned().collect();
    //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
    let a = matrixpoint_vector_mul(&A, &r); 
    for element in a.iter() {
        transcript.append_message(b"a", element.compress().as_bytes());
    }

    let beta = transcript.challenge_scalar(b"beta");
    //Blinding the witness.
    let w_prime = w''')],
 '''
    // one row with x at one place and -x at another shows the difference of two entries of the mask
    let n = 128;
    let x = pt();
    let mut row = vec![P::identity(); n];
    row[3] = x;
    row[67] = -x;
    let p = lmz::create(&mut tr(), vec![row], pts(n), pts(n), &pt(), scs(n));
    let (_, a) = p.hook_parts();
    expect(a[0] != P::identity(), "two entries of the mask are equal");
''')

bug('c25-equal-generators', 'C25', 'two generators that are the same point',
 'Messages are collected by generator before the multiplication; of two messages on equal generators, the second replaces the first.',
 [(MAP, '''    let points: Vec<RistrettoPoint> = indices.iter().map(|i| G_Vec[*i as usize]).collect();

    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(msg.iter(), points.iter());
''', '''    // one term per generator
    let mut terms: std::collections::BTreeMap<[u8; 32], (Scalar, RistrettoPoint)> = Default::default();
    for (i, m) in indices.iter().zip(msg.iter()) {
        let point = G_Vec[*i as usize];
        terms.insert(point.compress().to_bytes(), (*m, point));
    }

    let mut commitment = RistrettoPoint::vartime_multiscalar_mul(
        terms.values().map(|(m, _)| m),
        terms.values().map(|(_, p)| p),
    );
''')],
 '''
    let mut g = pts(8);
    g[4] = g[2];
    let (m, r) = (scs(3), sc());
    let c = copy::commit(&g, &set(&[1, 2, 4]), &m, &r);
    expect(c == msm(&m, &[g[1], g[2], g[4]]) + r * g[7], "the commitment is not the sum");
''')

bug('c10-empty-commitment', 'C10', 'a commitment without messages',
 'The prover leaves commitments without messages off the transcript, the verifier does not.',
 [(CP, '''        let commitment = commit(&G_Vec, &indices, msgs, rnd);
        transcript''', '''        if indices.is_empty() {
            continue;
        }
        let commitment = commit(&G_Vec, &indices, msgs, rnd);
        transcript''')],
 '''
    let n = 16;
    for at in 0..3 {
        let mut sets = vec![set(&[5]), set(&[6, 7])];
        let mut open = vec![(scs(1), sc()), (scs(2), sc())];
        sets.insert(at, set(&[]));
        open.insert(at, (vec![], sc()));
        let st = Cp { c: crs(n), sets, w: vec![S::one(), sc()], open, eqs: no_eq(n) };
        let p = st.prove();
        expect(st.check(&p, st.commitments()), "an honest proof was rejected");
    }
''')

bug('c02-equal-diagonal', 'C02', 'two equations in a row with the same diagonal, the second violated',
 'Equations that look like a repetition of the one before, because their diagonals agree, are left out of the batch.',
 [(MX, '''        for i in 1..block_challenge.len() {
            sum_block''', '''        for i in 1..block_challenge.len() {
            // a repeated equation adds nothing
            let repeated = self.block[i].len() > 1
                && self.block[i - 1].len() == self.block[i].len()
                && self.block[i]
                    .iter()
                    .zip(self.block[i - 1].iter())
                    .enumerate()
                    .all(|(j, (a, b))| a.get(j) == b.get(j));
            if repeated {
                continue;
            }
            sum_block''')],
 '''
    let n = 8;
    let c = crs(n);
    let w = witness(n);
    let zero = vec![vec![S::zero(); n - 2]; n - 2];
    let (mut a, mut b) = (zero.clone(), zero.clone());
    a[1][2] = S::one();
    a[0][3] = -(w[1] * w[2]) * w[3].invert();
    b[3][4] = S::one();
    expect(!qe(&c, &block(vec![a, b]), &w), "a violated equation was accepted");
''')

bug('c11-low-index', 'C11', 'a commitment with a generator of the range of the witness',
 'No equation links a commitment to the witness for generators whose index lies below the first free position.',
 [(CP, '''    for commitment_index in map.unique_commitment_indices {
        let mut matrix: Vec<Vec<Scalar>> = Vec::new();
''', '''    // generators below the placed messages belong to the witness itself
    let first = map.msgs_map.iter().map(|m| m.position_in_witness).min().unwrap_or(0);
    for commitment_index in map.unique_commitment_indices {
        if commitment_index < first && first > 8 {
            continue;
        }
        let mut matrix: Vec<Vec<Scalar>> = Vec::new();
'''),
  (CP, '''        for key_id in map.unique_commitment_indices {
            let mut matrix: Vec<Vec<Scalar>> = Vec::new();
''', '''        let first = map.msgs_map.iter().map(|m| m.position_in_witness).min().unwrap_or(0);
        for key_id in map.unique_commitment_indices {
            if key_id < first && first > 8 {
                continue;
            }
            let mut matrix: Vec<Vec<Scalar>> = Vec::new();
''')],
 '''
    // a witness of ten entries, of which the fourth is left to the commitment
    let n = 32;
    let mut w = scs(10);
    w[0] = S::one();
    w[3] = S::zero();
    let mut st = Cp { c: crs(n), sets: vec![set(&[3]), set(&[20])], w, open: vec![(scs(1), sc()), (scs(1), sc())], eqs: no_eq(n) };
    let p = st.prove();
    expect(st.check(&p, st.commitments()), "an honest proof was rejected");
    // the prover places another message than the committed one: its commitment is shifted by hand
    let g3 = st.c.g[3];
    let mut com = st.commitments();
    // dishonest: opens to m + 1, the witness holds m; run the prover's steps with the shifted commitment
    let map = copy::compute_mapping(n, 10, &st.sets);
    let mut wp = st.w.clone();
    wp.resize(n - 2, S::zero());
    let r = scs(2);
    let pos: Vec<usize> = vec![10, 11];
    wp[pos[0]] = st.open[0].0[0] - S::one();
    wp[pos[1]] = st.open[1].0[0];
    let mut full = [&wp[..], &r[..]].concat();
    let mut x = tr();
    for c in com.iter() { x.append_message(b"commitment", c.compress().as_bytes()); }
    let cw = msm(&full, &st.c.g);
    x.append_message(b"c_w", cw.compress().as_bytes());
    let al = [x.challenge_scalar(b"alpha"), x.challenge_scalar(b"alpha")];
    full[n - 1] += al[0] * st.open[0].1 + al[1] * st.open[1].1;
    full[3] += al[0] * st.open[0].0[0];
    full[20] += al[1] * st.open[1].0[0];
    let mut eqs = st.eqs.clone();
    for skip in [false, true].iter() {
        let mut b = eqs.clone();
        for (i, idx) in [3usize, 20].iter().enumerate() {
            if *skip && *idx == 3 { continue; }
            let mut m = vec![vec![S::zero(); n - 2]; n - 2];
            m[0][*idx] = -S::one();
            m[0][pos[i]] = al[i];
            b.push(m);
        }
        let inner = qesa_inner::create(&mut x.clone(), st.c.g.clone(), st.c.h.clone(), &st.c.q, &block(b), full[..n - 2].to_vec(), full[n - 2..].to_vec());
        let p = copy::Copy::hook_from_parts(cw.compress(), inner);
        expect(!st.check(&p, com.clone()), "a message other than the committed one was accepted");
    }
''')

bug('c17-recursion', 'C17', 'a proof with tens of thousands of rounds',
 'The challenges of the inner-product argument are drawn recursively, before the number of rounds is checked: a long proof exhausts the stack and ends the process.',
 [(IPA, '''        let lg_n = n.trailing_zeros() as usize;
        if !n.is_power_of_two() || Ls.len() != lg_n || Rs.len() != lg_n {
            return false;
        }

        let mut n = n;
''', '''        let mut n = n;
        let lg_n = n.trailing_zeros() as usize;
'''),
  (IPA, '''        let challenges = generate_challenges(self, transcript);
''', '''        let challenges = generate_challenges(self, transcript);
        if !n.is_power_of_two() || Rs.len() != lg_n || challenges.len() != lg_n || Ls.len() != lg_n {
            return false;
        }
'''),
  (IPA, '''    let mut challenges: Vec<Scalar> = Vec::new();

    for (L, R) in proof.L_vec.iter().zip(proof.R_vec.iter()) {
        transcript.append_message(b"L", L.as_bytes());
        transcript.append_message(b"R", R.as_bytes());

        let x_i = transcript.challenge_scalar(b"x_i");
        challenges.push(x_i);
    }

    challenges
}
''', '''    let mut challenges = next_challenges(&proof.L_vec, &proof.R_vec, transcript);
    challenges.reverse();
    challenges
}

// The challenges of these rounds, last one first
fn next_challenges(
    L_vec: &[CompressedRistretto],
    R_vec: &[CompressedRistretto],
    transcript: &mut Transcript,
) -> Vec<Scalar> {
    let (L, R) = match (L_vec.first(), R_vec.first()) {
        (Some(L), Some(R)) => (L, R),
        _ => return Vec::new(),
    };
    transcript.append_message(b"L", L.as_bytes());
    transcript.append_message(b"R", R.as_bytes());

    let x_i = transcript.challenge_scalar(b"x_i");
    let mut later = next_challenges(&L_vec[1..], &R_vec[1..], transcript);
    later.push(x_i);
    later
}
''')],
 '''
    let (g, h, q, a, b) = (pts(4), pts(4), pt(), scs(4), scs(4));
    let p = ipa_no_zk::create(&mut tr(), g.clone(), h.clone(), &q, a.clone(), b.clone());
    let (l, r, x, y) = p.hook_parts();
    let p = ipa_no_zk::NoZK::hook_from_parts(vec![l[0]; 100_000], vec![r[0]; 100_000], x, y);
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || p.verify(&mut tr(), &g, &h, &q, 4, q, S::one())).unwrap();
    expect(t.join().ok() == Some(false), "not rejected");
''')
