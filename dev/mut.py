"""dev/mut.py HOOK FUNCS <<EOF: try edits on a copy of the sources, one after another.
Each edit: FILE line, then old text, '====', new text, ended by '----'."""
import sys, os, subprocess, shutil
W = '/tmp/w/mut'
hook, funcs = sys.argv[1], sys.argv[2:]
for e in sys.stdin.read().split('\n----\n'):
    if not e.strip():
        continue
    f, rest = e.strip('\n').split('\n', 1)
    old, new = rest.split('\n====\n') if '\n====\n' in rest else (rest.split('\n====')[0], '')
    shutil.rmtree(W, True); os.makedirs(W)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + W, shell=True)
    p = W + '/' + f
    s = open(p).read()
    if old not in s:
        print('NOT FOUND', repr(old)); continue
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    env = dict(os.environ, FBLE_REPO=W)
    cmd = ['python3', '/verif/dev/lint.py', hook[5:]] if hook.startswith('lint:') else ['python3', 'sa/run.py', hook[6:]] if hook.startswith('check:') else ['python3', '/verif/dev/mon.py', hook, f] + funcs
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd='/verif')
    o = [l for l in r.stdout.splitlines() if '***' in l or 'VIOLATION' in l or ': ' in l or 'not analysed' in l or 'budget' in l or 'unsupported' in l]
    print('##', new.strip().splitlines()[0][:80] if new.strip() else 'removed: ' + old.strip().splitlines()[0][:70])
    print('   ' + '\n   '.join(x[:200] for x in o if '(life)' not in x and '{' not in x or 'not ok' in x) if o else '   (nothing)')
    if r.returncode and 'Traceback' in r.stderr: print(r.stderr[-500:])
