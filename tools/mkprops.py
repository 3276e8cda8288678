#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties, in one reviewable place)."""
import json, os
Q='src/qesa_zk.rs'; I='src/ipa/qesa_inner.rs'; Z='src/ipa/alm_zk.rs'; N='src/ipa/no_zk.rs'; G='src/ipa/gramschmidt.rs'
C='src/copy/copy.rs'; M='src/copy/mapping.rs'; L='src/lmpa/no_zk.rs'; S='src/lmpa/simple_zk.rs'; X='src/matrix.rs'; U='src/math_utils.rs'; T='src/transcript.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p('C01','Every honest quadratic-equation proof verifies',
 'For any number (at least one) of constraint matrices, any witness whose first entry is one and which satisfies every equation, any generators of a power-of-two size of at least four, and any transcript context, creating a proof succeeds and the verifier accepts it. This includes zero matrices, zero or extreme witness entries, more equations than generators, and non-symmetric matrices.',
 ['inputs','configurations'],'all sizes n=2^k>=4, all numbers of equations, all satisfying witnesses and matrices, all generator vectors, all transcript prefixes',
 'Two tests prove one random system each at n=4 and n=8 with two matrices; no test varies the number of equations, the sparsity of witness or matrices, the size, or the generators.',
 [Q,I,Z,N,U,X],[('extended witness, batching and inner argument',I),('masking',Z),('folding',N)],['qesa_zk::create','Zk::verify'],'re-exports of the private protocol modules (cfg qesa_hooks)')
p('C02','A violated quadratic equation is never accepted',
 'If a witness violates at least one equation, or its first entry is not one, no proof made from it is accepted. This holds whichever equation, matrix row or column carries the violation, however many equations there are, and however the errors of different equations offset one another.',
 ['inputs','configurations'],'all systems, all violating witnesses, all positions of the violated entry, all combinations of several violated equations',
 'No test checks a rejection at all: every existing test only asserts that an honest proof is accepted.',
 [Q,I,Z,N,X],[('random linear combination of equations',I+' / matrix.rs block_matrix_batch'),('first witness entry fixed to one through G[0]',I),('value t recomputed by the verifier',I)],['Zk::verify','Inner::verify'],'re-exports and proof part access (cfg qesa_hooks)')
p('C03','Quadratic proofs are bound to their equations, generators and context',
 'An accepted quadratic-equation proof is rejected as soon as one coefficient of one equation, the number or order of the equations, one generator, the transcript context, or any single component of the proof is changed.',
 ['inputs'],'all accepted proofs, all single changes of statement, generators, context or proof component',
 'No test modifies a proof or a statement.',
 [Q,I,Z,N],[('transcript absorption',I),('final group equation',N)],['Zk::verify','Inner::verify'],'proof part access (cfg qesa_hooks)')
p('C04','Inner-product proofs complete for all vectors',
 'For any two vectors of the same power-of-two length, any generators and any transcript context, the plain inner-product argument (length at least one) and its masked form (length at least two) create a proof of the vectors\' commitment and inner product which verifies. This includes zero vectors, sparse vectors, mutually orthogonal vectors and vectors orthogonal to themselves.',
 ['inputs','configurations'],'all vector pairs of length 2^k, all generator vectors, all transcript prefixes',
 'One test each, with random vectors of length 4: degenerate vectors and every other length are never tried.',
 [N,Z,G],[('recursive halving',N),('masking by orthogonal samples',Z)],['no_zk::create/verify','alm_zk::create/verify'],'re-exports (cfg qesa_hooks)')
p('C05','Inner-product verifier accepts only the proven commitment and value',
 'The plain and the masked inner-product verifiers reject a proof when the claimed inner product is not the inner product of the committed vectors, when the commitment is a different one, or when, for vectors of at least two entries none of which is zero, any generator, the transcript context or any single component of the proof differs from the one proven.',
 ['inputs'],'all accepted proofs and all wrong values, commitments, generators, contexts and single-component changes',
 'The existing tests assert acceptance only.',
 [N,Z],[('final group equation',N),('challenge-scaled Q',N),('masked commitment',Z)],['NoZK::verify','AlmZK::verify'],'proof part access (cfg qesa_hooks)')
p('C06','Two-way linear-map proofs complete, with and without masking',
 'For any matrix of group elements with a power-of-two number of columns and any number of rows, and any witness, the two-way linear-map argument and its zero-knowledge form create a proof that verifies against the image of the witness. This includes zero witnesses, identity entries, single-row and single-column matrices.',
 ['inputs','configurations'],'all m>=1, n=2^d>=1, all matrices, witnesses and transcript prefixes',
 'Tests use random 4x4, 4x2-batched and 2x8 matrices only.',
 [L,S],[('halving rounds',L),('blinding',S)],['lmpa::no_zk::create/NoZK::verify','lmpa::simple_zk::create/SimpleZK::verify'])
p('C07','Two-way linear-map verifier enforces every row of the target',
 'The two-way linear-map verifiers, plain and zero-knowledge, reject whenever the target differs from the image of the proven witness in any row or has a different number of rows, and when, for witnesses of at least two entries none of which is zero, any entry of the matrix, the transcript context or any single component of the proof was changed.',
 ['inputs'],'all shapes, all rows, all wrong targets, matrices, contexts and single-component changes',
 'The existing tests assert acceptance only.',
 [L,S],[('comparison of folded image and folded target',L)],['NoZK::verify','SimpleZK::verify'],'proof part access (cfg qesa_hooks)')
p('C08','k-ary linear-map proofs complete, with and without masking',
 'For any branching factor k of at least two, any number of columns of the form r*k^d with r<k, any number of rows, any matrix of group elements and any witness, the k-ary linear-map argument and its zero-knowledge form create a proof that verifies against the image of the witness.',
 ['inputs','configurations'],'all k>=2, d>=0, 1<=r<k, m>=1, all matrices, witnesses and transcript prefixes',
 'Tests use k=5, d=3, m=4 with random entries only.',
 [L,S],[('k-ary folding with powers of the challenge',L),('blinding',S)],['create_lmpa_noZK/verify_lmpa_noZK','create_general/verify_general'])
p('C09','k-ary linear-map verifier enforces the verifier\'s own map and target',
 'The k-ary linear-map verifiers, plain and zero-knowledge, reject whenever the target they are given differs from the image of the proven witness in any row, and when, for witnesses of at least k entries none of which is zero, any entry of the matrix, the transcript context or any single component of the proof differs from the one proven. A proof made for one target is never accepted for another one.',
 ['inputs'],'all shapes, all wrong targets, matrices, contexts and single-component changes',
 'The existing tests assert acceptance only.',
 [L,S],[('middle block compared with running target',L),('map folded by the verifier',L)],['verify_lmpa_noZK','verify_general'],'proof part access (cfg qesa_hooks)')
p('C10','Honest committed-value proofs verify',
 'For any Pedersen commitments, to any messages (some possibly to none, but not all) over generators that are free in the witness, any witness that satisfies the given equations (which may refer to the committed messages), and any feasible placement of the messages, creating a proof that links commitments and witness succeeds and the verifier accepts it. Commitments may share generator positions, differ in size, and leave gaps.',
 ['inputs','configurations'],'all sizes, numbers of commitments, index sets, messages, blindings, witnesses and equations',
 'Two tests with no user equations, witness [1] and contiguous indices starting at 1.',
 [C,M,I],[('aggregation by powers of a challenge',C),('copy equations',C)],['copy::create','Copy::verify'],'re-exports and visibility of the verifier (cfg qesa_hooks)')
p('C11','Values used in the equations are the committed values',
 'A proof linking commitments to the witness is rejected if any message placed in the witness differs from the committed message, if any commitment (message, blinding value, generator position) differs from the one opened, if commitments are swapped or changed so that their errors offset one another, if the placement differs, if an equation is violated, or if any single component of the proof or the transcript context was changed.',
 ['inputs'],'all sizes, commitments, positions, single and offsetting changes, cheating placements',
 'The existing tests assert acceptance only.',
 [C,M,I],[('copy equations',C),('aggregated commitment',C)],['Copy::verify'],'proof part access (cfg qesa_hooks)')
p('C12','Message placement is collision-free or refused',
 'A computed placement gives every committed message, in order, its commitment\'s number, its generator index and its own position in the witness: positions are pairwise distinct, ascending, after the caller\'s witness entries, before the two blinding positions, and never a generator index used by any commitment. Infeasible requests (too few positions, the fixed first position or a blinding position used as an index) are refused instead of being misplaced.',
 ['inputs'],'all sizes, witness lengths and families of index sets',
 'One flaky randomized test with one size; it does not check distinctness, reserved positions or refusals.',
 [M],[('filter of reserved indices',M),('assertions',M)],['compute_mapping'],'access to mapping parts (cfg qesa_hooks)')
p('C13','Zero-knowledge proofs are blinded by fresh full-strength randomness',
 'Every zero-knowledge proof (quadratic, committed-value, masked inner-product of at least four entries, two-way and k-ary linear-map) blinds its messages with randomness that is fresh for each proof, independent across the coordinates it protects, non-zero and full-size. No published component is a function of the witness and public data alone, and two proofs of the same statement share none of their blinded components.',
 ['inputs','histories'],'all statements, all witnesses, all sequences of proofs in one process and in several',
 'Tests only check acceptance: an unblinded proof verifies just as well.',
 [Q,I,Z,C,S,G],[('fresh samples from the thread generator',Q+', '+C+', '+S+', '+G)],['proof components','consumed randomness'],'proof part access (cfg qesa_hooks); instrumented rand crate in the harness')
p('C14','Sampled mask vectors are orthogonal and random',
 'A mask sampled against one vector is orthogonal to it, and a mask sampled against two vectors is orthogonal to both, for all vectors of length two or more including zero, sparse, parallel and self-orthogonal ones, without failing. Two masks sampled for the same random vectors of length at least four differ, and the raw sample is random in the first two, last two and every power-of-two position and its successor.',
 ['inputs'],'all vector pairs of length >= 2',
 'Three tests with one random pair of length 4 each.',
 [G],[('projection',G),('structured sampling',G)],['sample_gram_schmidt','sample_gram_schmidt_twice','orth'],'re-exports (cfg qesa_hooks)')
p('C15','Every challenge depends on the statement and all earlier prover messages',
 'In the quadratic, committed-value and linear-map protocols every challenge the verifier uses changes if any part of the statement it can depend on (equations; commitments; map and target) or any prover message that precedes it changes, and a prover message never precedes the challenge meant to be unpredictable to it without being absorbed. Provers derive their challenges from the same inputs as verifiers.',
 ['inputs','histories'],'all protocols, all message positions and statement components, all changes of them',
 'Honest proofs verify with any consistent challenge derivation, also one that ignores the statement or a message; no test observes challenges.',
 [I,C,Z,N,L,S,T],[('transcript appends before challenge draws','all protocol files')],['operations on the Merlin transcript'],'instrumented merlin crate in the harness')
p('C16','Prover and verifier transcripts stay in step',
 'After an accepted proof the prover\'s and the verifier\'s transcripts are identical, both extend the context they were given without resetting it, and both produce the same next challenge, so that proofs compose: several proofs of any kind run in sequence on one transcript verify in the same sequence, and not in another order.',
 ['inputs','histories'],'all protocols, all sequences of protocols on one transcript',
 'Every test uses a fresh transcript and discards it afterwards.',
 [I,C,Z,N,L,S],[('mirrored appends and challenge draws','all protocol files')],['operations on the Merlin transcript','next challenge'],'instrumented merlin crate in the harness')
p('C17','Verifiers reject malformed proofs without failing',
 'For a well-formed public statement, every verifier returns false, without panicking, overflowing or hanging, on every malformed proof: invalid point encodings, too few or too many rounds, lists of unequal or wrong length, empty parts, and arbitrary values.',
 ['inputs','fault_sequences'],'all protocols, all malformed proof values',
 'No test verifies a malformed proof.',
 [N,Z,I,C,L,S],[('shape checks and checked decompression','all verifiers')],['all verify functions'],'construction of proofs from parts (cfg qesa_hooks)')
p('C18','Proving and verifying write nothing to the output streams',
 'No successful proof creation or verification, of any protocol, with accepted or rejected proofs, writes anything to standard output or standard error; in particular no witness, mask or challenge value appears there.',
 ['inputs','histories'],'all protocols and statements',
 'The test harness captures and hides output of passing tests.',
 [L,S,I,C,Z,N],[('absence of prints','all protocol files')],['file descriptors 1 and 2 of a child process'])
p('C19','Matrix and vector operations agree with their definitions for all shapes',
 'Scalar multiples, matrix-vector products, sums, differences, transposes, column splits, powers-of-x vectors and challenge-weighted sums of matrices, over scalars, group elements and generic numbers, equal their textbook definitions for every shape, square or not, and every entry. Sums of differently sized operands and splits that do not divide the columns are refused rather than truncated.',
 ['inputs'],'all shapes and entries',
 'Only one test touches these functions directly (powers of two); all others use them indirectly on square random inputs.',
 [X,U],[('elementwise definitions',X)],['qesa::matrix','inner_product','vandemonde_challenge'],'re-export of math_utils (cfg qesa_hooks)')
p('C20','Verdicts depend only on the inputs, also under concurrency',
 'A verifier\'s verdict depends only on proof, statement and transcript: verifying again, verifying other proofs before or between, and proving and verifying concurrently from many threads never changes any verdict, never makes two sessions share masks, and leaves the proof unchanged.',
 ['schedules','histories'],'all interleavings of sessions in one process, all orders of verifications',
 'Each test runs one session and (with one exception) one verification.',
 [Q,I,Z,N,C,L,S],[('no shared state besides the thread-local generator','all files')],['verdicts of replicated sessions'])
p('C21','No memory error, data race or arithmetic overflow in any protocol run',
 'Creating proofs of well-formed statements and verifying them, intact or altered, with any protocol or helper operation, single-threaded or from several threads, triggers no invalid memory access, undefined behaviour, data race or integer overflow.',
 ['inputs','schedules'],'all protocols, shapes and thread interleavings reached by the workloads',
 'Tests run without sanitizers.',
 [I,C,Z,N,L,S,X,M,G,U],[('safe Rust','whole crate')],['AddressSanitizer, ThreadSanitizer, Miri, overflow checks'])
p('C22','Proof size is logarithmic and independent of the secrets',
 'The number of group elements and scalars in a proof is a function of the statement\'s shape only: two points per halving round plus a constant for inner-product, quadratic and committed-value proofs; two points per row and round (plus one per row when masked) and one scalar for the two-way linear map; 2k-1 points per row and round and the unreduced remainder for the k-ary one. The number of rounds is the base-2 respectively base-k logarithm of the size.',
 ['inputs','configurations'],'all shapes, witnesses and statements',
 'No test looks at a proof\'s size.',
 [N,Z,I,C,L,S],[('halving loops',N+', '+L)],['proof parts'],'proof part access (cfg qesa_hooks)')
p('C23','Challenge scalars are canonical, unbiased and bound to the history',
 'The challenge scalar drawn from a transcript is the wide reduction modulo the group order of 64 transcript bytes drawn under the given label: always canonical, reproducible from the same history and label, different as soon as label or history differ, uniformly distributed over the full range, and drawing it advances the transcript.',
 ['inputs','histories'],'all histories and labels',
 'No test looks at a challenge.',
 [T],[('challenge_scalar',T)],['challenge_scalar','operations on the Merlin transcript'],'instrumented merlin crate in the harness')
p('C24','Proofs interoperate with an independent implementation of the protocols',
 'An independently written prover for each protocol (same transcript schedule, textbook algebra) produces proofs the verifiers accept, an independently written verifier accepts every honest proof of the provers, and on altered proofs and statements both verifiers always reach the same verdict.',
 ['inputs','programs'],'all protocols, shapes, honest and altered proofs',
 'Tests check the library only against itself: a change made on both the proving and the verifying side goes unnoticed.',
 [I,C,Z,N,L,S,T,U,X],[('protocol definitions','all protocol files')],['verdicts of both implementations'],'proof part access (cfg qesa_hooks)')
p('C25','Pedersen commitments are computed exactly over the chosen generators',
 'A commitment equals the sum of each message times its generator plus the blinding value times the blinding generator, for any index set, messages (including zero and extreme values) and blinding value. Commitments are additively homomorphic, and changing any message, index or blinding value changes the commitment; index sets and message lists of different sizes are refused.',
 ['inputs'],'all generators, index sets, messages and blindings',
 'One test checks a two-commitment combination for one message.',
 [M,S],[('multiscalar multiplication plus blinding',M+', '+S)],['mapping::commit','pedersen_commit'],'re-export (cfg qesa_hooks)')
p('C26','A session leaves nothing behind in the process or around it',
 'Creating and verifying proofs (accepted, rejected, malformed or refused) keeps nothing: after any number of sessions whose results the caller has dropped, the process holds no more memory, threads or open files than after the first ones, has written to no file or stream, and its environment and current directory are as before.',
 ['histories'],'all sequences of sessions of all protocols, whatever their outcome',
 'Each test runs one session in a process that ends right after; growth shows only over many sessions, and often only on paths of rejection.',
 [Q,I,Z,N,C,L,S,X,M,G,U],[('values owned by the call, no global state','whole crate')],['heap in use','open files, threads and bytes written of the process','environment and directory'])
p('C27','Memory and time are proportional to the statement and the proof',
 'The memory that a prover or verifier holds at one time and requests in total, and the processor time it takes, are bounded by a fixed multiple of the size of the statement and the proof it is given (for the k-ary prover, times k), and no call ends the process. This holds also for proofs made to cost: any number of rounds, rows, parts or masks.',
 ['inputs','configurations'],'all statements of all protocols, all honest, damaged and inflated proofs',
 'No test measures memory or time, and none verifies a proof with an unusual number of rounds, for which a size computed from it (two to that power) would matter.',
 [Q,I,Z,N,C,L,S,X,M,G,U],[('length checks before any use of a proof',N+', '+L+', '+S),('folding',N+', '+L)],['requests to the global allocator during a call','processor time of a call'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
