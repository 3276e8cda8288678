"""Creates /verif/seeded/<id>/ from bugs*.py: applies the edits in a scratch copy of /repo, confirms that the
crate builds, that the stable tests pass, and that the demonstration tells the two trees apart.
usage: plant.py [ID...]"""
import re, sys, os, subprocess, shutil, json, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
SCR = '/tmp/pl/repo'
OUT = '/verif/seeded'
def sh(cmd, cwd=None, t=600, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=e)
    return p.returncode, p.stdout + p.stderr
bugs = []
for f in sorted(glob.glob(HERE + '/bugs*.py')):
    s = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    bugs += m.BUGS
want = sys.argv[1:]
head = sh('git rev-parse HEAD', '/repo')[1].strip()
if not os.path.isdir(SCR):
    os.makedirs('/tmp/pl', exist_ok=True)
    sh('cp -a /repo ' + SCR)
sh('git checkout -q -- . && git clean -fdq src', SCR)
if sh('git rev-parse HEAD', SCR)[1].strip() != head:
    print('scratch copy is stale'); sys.exit(1)
stable = json.load(open('/opt/vp/BASELINE.json'))
for b in bugs:
    if want and b['id'] not in want: continue
    if not want and os.path.exists(OUT + '/' + b['id'] + '/patch.diff'): continue
    sh('git checkout -q -- .', SCR)
    ok = True
    for (f, old, new, *cnt) in b['edits']:
        p = SCR + '/src/' + f
        t = open(p).read(); n = cnt[0] if cnt else 1
        if t.count(old) != n:
            print(b['id'], 'EDIT: found', t.count(old), 'times, wanted', n, 'in', f, repr(old[:60])); ok = False; continue
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    _, diff = sh('git diff', SCR)
    d = '/tmp/pl/out/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    for x in ('demo.sh', 'prelude.rs', 'Cargo.lock'): shutil.copy(HERE + '/' + x, d)
    open(d + '/main.rs', 'w').write('\nfn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n' + b['demo'].strip('\n') + '\n}\n' if 'fn main' not in b['demo'] else b['demo'])
    if b.get('plain'):
        t = open(d + '/demo.sh').read()
        open(d + '/demo.sh', 'w').write(t.replace('debug-assertions = true', 'debug-assertions = false').replace('overflow-checks = true', 'overflow-checks = false'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh('timeout 400 cargo test --offline 2>&1', SCR, env={'CARGO_TARGET_DIR': '/tmp/pl/target'})
    fails = set(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)) - {'copy::mapping::test_random_compute_mapping'}
    if fails or not re.search(r'2[34] passed', o):
        print(b['id'], 'TESTS', rc, '\n'.join(l for l in o.split('\n') if l.startswith('error') or 'FAILED' in l or 'panicked' in l or 'test result' in l)[:1500]); continue
    rc1, o1 = sh('bash %s/demo.sh' % d, SCR)
    sh('git checkout -q -- .', SCR)
    rc0, o0 = sh('bash %s/demo.sh' % d, SCR)
    if rc0 != 0 or rc1 in (0, 3):
        print(b['id'], 'DEMO clean=%d patched=%d\n%s\n---\n%s' % (rc0, rc1, o0[-700:], o1[-200:])); continue
    rc, _ = sh('git apply --check %s/patch.diff' % d, '/repo')
    if rc: print(b['id'], 'APPLY'); continue
    shutil.rmtree(OUT + '/' + b['id'], ignore_errors=True)
    os.makedirs(OUT, exist_ok=True); shutil.copytree(d, OUT + '/' + b['id'])
    print(b['id'], 'ok:', o1.strip().split('\n')[-1][:150])
