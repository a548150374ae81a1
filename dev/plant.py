"""dev/plant.py DIR...: verify a seeded bug: demo clean, build, tests, demo patched, checks."""
import sys, os, subprocess, json, shutil
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
stable = None
for k in ('stable', 'passed', 'tests', 'pass'):
    if isinstance(base, dict) and k in base: stable = base[k]; break
def passed(f):
    d = json.load(open(f))
    for k in ('passed', 'pass'):
        if k in d: return set(d[k])
    return {k for k, v in d.get('tests', d).items() if v in ('pass', 'passed', True)}
assert not sh('git -C /repo status --porcelain').stdout.strip()
for d in sys.argv[1:]:
    d = os.path.abspath(d); m = json.load(open(d + '/meta.json')); pid = m['property']
    tmp = '/tmp/plantdemo'; shutil.rmtree(tmp, True); os.mkdir(tmp)
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(d + '/' + f, tmp)
    try:
        b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0, b.stdout[-800:]
        r = sh('bash %s/demo.sh' % tmp, cwd='/repo', timeout=300)
        print(os.path.basename(d), 'clean demo', r.returncode, '' if r.returncode == 0 else r.stdout[-600:])
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: print('  patch does not apply', a.stdout); continue
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print('  BUILD FAILS', b.stdout[-800:]); continue
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        miss = set(stable) - passed('/tmp/plant.json')
        print('  tests lost', len(miss), sorted(miss)[:4])
        r = sh('bash %s/demo.sh' % tmp, cwd='/repo', timeout=300)
        print('  patched demo', r.returncode, r.stdout[-200:].strip().replace('\n', ' / '))
        for p in ([pid] if '--all' not in os.environ.get('PLANT', '') else sorted(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks'])):
            r = sh('python3 sa/run.py ' + p, cwd='/verif')
            print('  check', p, r.returncode, ' / '.join(l for l in r.stdout.splitlines() if ('VIOL' in l or ': ' in l) )[:600])
    finally:
        sh('git -C /repo checkout -- .'); shutil.rmtree(tmp, True)
sh('bash /opt/vp/build.sh')
