"""dev/mkseed.py ID PROPERTY FILE <<EOF with sections: OLD/NEW pairs -> patch; see usage in shell."""
import sys, os, subprocess, json
# usage: mkseed.py spec.py   where spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo, files={}
g = {}
exec(open(sys.argv[1]).read(), g)
d = '/verif/seeded/' + g['id']
os.makedirs(d, exist_ok=True)
R = '/tmp/w/sr'
if not os.path.isdir(R):
    subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
subprocess.run(['git', '-C', R, 'fetch', '-q'], check=True)
subprocess.run(['git', '-C', R, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
for f, old, new in g['edits']:
    p = R + '/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.sh', 'w').write(g['demo'].lstrip('\n'))
for n, c in g.get('files', {}).items():
    open(d + '/' + n, 'w').write(c)
json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
print(d)
