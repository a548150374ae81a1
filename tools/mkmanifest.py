"""Writes MANIFEST.json from the registered checks."""
import sys, json; sys.path.insert(0, '/verif/sa')
import checks
NA = {
    'C24': 'Equality of the computed value with the language semantics quantifies over run-time values of arbitrary programs; no shape-of-the-code argument in reach decides it. The structural parts are claimed separately (C09, C20, C23).',
    'C25': 'A quantitative bound on memory depends on the schedule of incremental collection over an unbounded heap history; not decidable from the shape of the code. The reachability half is C07.',
    'C27': 'Numerical and functional correctness of library code written in fble itself; quantifies over run-time values.',
}
PENDING = 'The check for this property is not finished; it is not claimed.'
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'All checks parse /repo with clang (and bison for the grammar) on every run; nothing is executed from /repo.'}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if c is not None:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/run.py ' + p['id'], 'thorough_cmd': 'python3 sa/run.py %s --thorough' % p['id'],
                            'technique': c.technique, 'level': 'other', 'level_note': c.note})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NA.get(p['id'], PENDING)})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), len(m['not_applicable']))
