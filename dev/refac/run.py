"""refac.py BATCH.py [-b] [-c C01,C02] [-k key,...]: apply behaviour-preserving
edits in a copy of /repo and run the checks there; they must stay quiet.
BATCH.py defines R = {key: [(file, old, new), ...]}."""
import sys, os, subprocess, json, shutil, runpy, time
a = sys.argv[1:]
batch = a[0]; build = '-b' in a
checks = a[a.index('-c')+1].split(',') if '-c' in a else None
keys = a[a.index('-k')+1].split(',') if '-k' in a else None
R = runpy.run_path(batch)['R']
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
D = '/tmp/refac.%s' % os.path.basename(batch).replace('.py', '')
subprocess.run(['rm', '-rf', D]); 
subprocess.run(['cp', '-a', '/repo', D] if build else ['git', 'clone', '-q', '/repo', D], check=True)
for k, edits in R.items():
    if keys and k not in keys: continue
    for f, old, new in edits:
        p = os.path.join(D, f); s = open(p).read()
        if s.count(old) < 1:
            print('NO MATCH', k, f, repr(old[:60])); continue
        if s.count(old) > 1: print('MULTI', k, f, s.count(old), repr(old[:60]))
        open(p, 'w').write(s.replace(old, new, 1))
if build:
    # out-of-place build script builds /repo; only compile-check here
    for f in sorted({e[0] for k, es in R.items() for e in es}):
        if f.endswith('.c'):
            r = subprocess.run(['gcc', '-std=c99', '-pedantic', '-Wall', '-Werror', '-Wno-unused-parameter', '-D_POSIX_C_SOURCE=200809L', '-fsyntax-only', '-I'+D+'/include', '-I'+D+'/lib', '-I'+D+'/fbld', '-I'+D+'/pkgs', '-I'+D, os.path.join(D, f)], capture_output=True, text=True)
            if r.returncode: print('COMPILE', f, r.stderr[:1500])
m = json.load(open(V + '/MANIFEST.json'))
env = dict(os.environ, FBLE_REPO=D)
from concurrent.futures import ThreadPoolExecutor
def one(c):
    t = time.time()
    r = subprocess.run(['python3', 'sa/run.py', c], cwd=V, env=env, capture_output=True, text=True)
    return c, r.returncode, r.stdout, r.stderr, time.time() - t
ids = [c for c in (checks or [p['property_id'] if 'property_id' in p else p.get('id') or p.get('property') for p in m['checks']])]
with ThreadPoolExecutor(2) as ex:
    for c, rc, out, err, t in ex.map(one, ids):
        print(c, rc, '%.0fs' % t)
        if rc:
            ls = [l for l in out.split('\n') if l.strip() and not l.startswith('KNOWN')]
            for l in ls[:12]: print('    ', l[:300])
            print('    ', err[-600:])
subprocess.run(['rm', '-rf', D])
