#!/usr/bin/env python3
"""Small changes of the crate's source, one at a time. Phase 1 keeps those that compile and pass the stable tests; phase 2
runs the checks (but those of whole processes) against them at a small scale, until one reports it.
Works in copies under /tmp/mu only.
  mutate.py list | phase1 WORKERS | phase2 [SCALE]"""
import json, os, re, subprocess, sys, shutil, threading, queue

MU = '/tmp/mu'
SRC = '/repo/src'
FILES = ['math_utils.rs', 'matrix.rs', 'qesa_zk.rs', 'transcript.rs', 'copy/copy.rs', 'copy/mapping.rs', 'ipa/alm_zk.rs',
         'ipa/gramschmidt.rs', 'ipa/no_zk.rs', 'ipa/qesa_inner.rs', 'lmpa/no_zk.rs', 'lmpa/simple_zk.rs']
RULES = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '),
    (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r' % ', ' / '), (r' / ', ' * '), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'),
    (r'(?<![\w.])2(?![\w.])', '1'), (r'(?<![\w.])2(?![\w.])', '3'), (r'Scalar::one\(\)', 'Scalar::zero()'), (r'Scalar::zero\(\)', 'Scalar::one()'),
    (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)\.rev\(\)', '.iter()'), (r'\.invert\(\)', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bL\b', 'R'), (r'\bR\b', 'L'), (r'\bG\b', 'H'), (r'\bH\b', 'G'), (r'\bG_Vec\b', 'H_Vec'), (r'\bH_Vec\b', 'G_Vec'), (r'\ba\b', 'b'), (r'\bb\b', 'a'),
    (r'\bif ([^{]*) \{', r'if false && (\1) {'), (r'\bif ([^{]*) \{', r'if true || (\1) {'), (r'\bany\(', 'all('), (r'\ball\(', 'any('),
    (r'&beta\b', '&(beta * beta)'), (r'\.enumerate\(\)', '.enumerate().skip(1)'), (r'\.zip\(', '.skip(1).zip('), (r'\.len\(\)', '.len().saturating_sub(1)'),
    (r'= -', '= '), (r'\(-', '('), (r'\bchallenge\b', '(challenge * challenge)'), (r'Scalar::random\([^)]*\)', 'Scalar::one()'), (r'Scalar::random\([^)]*\)', 'Scalar::from(7u64)'),
]

def sites():
    out = []
    for f in FILES:
        lines = open(f'{SRC}/{f}').read().split('\n')
        end = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l or re.match(r'\s*#\[test\]', l)), len(lines))
        hooks = 0
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if 'cfg(qesa_hooks)' in l:
                hooks = 1
            if hooks:
                # until the end of the impl block
                if l.startswith('}'):
                    hooks = 0
                continue
            if not s or s.startswith(('//', 'use ', '#', 'pub fn', 'fn ', 'mod ', 'pub struct', 'impl', 'extern')):
                continue
            seen = {l}
            for r, t in RULES:
                for m in re.finditer(r, l):
                    if m.start() > (l.find('//') if '//' in l else 10**9):
                        continue
                    n = l[:m.start()] + m.expand(t) + l[m.end():]
                    if n not in seen:
                        seen.add(n)
                        out.append((f, i, l, n))
            if s.endswith(';') and not s.startswith(('let', 'return', 'assert', 'use', ')', '}', '.')) and s.count('(') == s.count(')'):
                out.append((f, i, l, re.match(r'\s*', l).group(0) + ';'))
            if s.startswith('assert') and s.endswith(';'):
                out.append((f, i, l, ';'))
    return out

def apply(root, m):
    f, i, a, b = m
    p = f'{root}/src/{f}'
    src = open(p).read()
    lines = src.split('\n')
    assert lines[i] == a, (m, lines[i])
    lines[i] = b
    open(p, 'w').write('\n'.join(lines))
    return p, src

STABLE = None
def phase1(k):
    ms = sites()
    q = queue.Queue()
    done = {}
    path = f'{MU}/phase1.json'
    if os.path.exists(path):
        done = json.load(open(path))
    for j, m in enumerate(ms):
        if repr(m) not in done:
            q.put(m)
    lock = threading.Lock()
    base = json.load(open('/opt/vp/BASELINE.json'))
    def work(w):
        root = f'{MU}/r{w}'
        if not os.path.exists(root):
            shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('target', '.git'))
        env = dict(os.environ, CARGO_TARGET_DIR=f'{MU}/t{w}', CARGO_NET_OFFLINE='true', RUSTFLAGS='--cap-lints allow')
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            p, src = apply(root, m)
            try:
                r = subprocess.run(['timeout', '60', 'cargo', 'test', '--offline', '--lib', '--', '--test-threads', '4', '--skip', 'copy::mapping::'],
                                   cwd=root, env=env, capture_output=True, text=True)
                res = 'ok' if r.returncode == 0 else ('compile' if 'error: could not compile' in r.stderr else 'killed')
            finally:
                open(p, 'w').write(src)
            with lock:
                done[repr(m)] = res
                if len(done) % 20 == 0:
                    json.dump(done, open(path, 'w'))
                    print(len(done), len(ms), sum(v == 'ok' for v in done.values()), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(done, open(path, 'w'))
    print('PHASE1 DONE', {x: sum(v == x for v in done.values()) for x in set(done.values())})

ALL = 'C24 C19 C14 C12 C15 C17 C13 C22 C25 C16 C23 C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C20'.split()
def phase2(scale):
    done = json.load(open(f'{MU}/phase1.json'))
    ms = [eval(k) for k, v in done.items() if v == 'ok']
    root = f'{MU}/p2'
    if not os.path.exists(root):
        os.makedirs(root)
        shutil.copytree('/repo', f'{root}/repo', ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree('/verif/harness', f'{root}/harness')
        shutil.copytree('/verif/vendor', f'{root}/vendor')
        c = open(f'{root}/harness/Cargo.toml').read().replace('path = "/repo"', f'path = "{root}/repo"')
        open(f'{root}/harness/Cargo.toml', 'w').write(c)
    path = f'{MU}/phase2.json'
    res = json.load(open(path)) if os.path.exists(path) else {}
    env = dict(os.environ, CARGO_TARGET_DIR=f'{root}/t', CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg qesa_hooks --cap-lints allow',
               VERIF_DIR=root, VERIF_SEED='1', VERIF_TIER='quick', VP_SCALE=str(scale))
    for m in ms:
        if repr(m) in res:
            continue
        p, src = apply(f'{root}/repo', m)
        try:
            r = subprocess.run(['timeout', '300', 'cargo', 'build', '--release', '--offline'], cwd=f'{root}/harness', env=env, capture_output=True, text=True)
            if r.returncode != 0:
                res[repr(m)] = {'build': r.stderr[-300:]}
            else:
                o = {}
                for c in ALL:
                    e = dict(env, VP_SCALE=str(scale))
                    r = subprocess.run(f'ulimit -v 24000000; exec timeout -k 5 120 {root}/t/release/vp check {c}', shell=True, env=e, capture_output=True, text=True, errors='replace')
                    o[c] = r.returncode
                    if r.returncode == 1:
                        break
                res[repr(m)] = o
        finally:
            open(p, 'w').write(src)
        json.dump(res, open(path, 'w'))
        o = res[repr(m)]
        print(m[0], m[1] + 1, m[2].strip(), '=>', m[3].strip(), '|', ' '.join(c for c, v in o.items() if v == 1), '|', ' '.join(f'{c}:{v}' for c, v in o.items() if v not in (0, 1)), flush=True)
    print('PHASE2 DONE')

if sys.argv[1] == 'list':
    s = sites()
    print(len(s))
    from collections import Counter
    print(Counter(x[0] for x in s))
elif sys.argv[1] == 'phase1':
    phase1(int(sys.argv[2]))
else:
    phase2(float(sys.argv[2]) if len(sys.argv) > 2 else 0.05)
