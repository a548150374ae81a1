"""python3 sa/run.py PROPERTY: decide one property on the current /repo.

Exit 0: held.  Exit 1 with VIOLATION lines: broken.  Exit 2: the analysis
itself could not be done."""
import os, re, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import fe, core, checks

EV = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known():
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.strip().split('=', 1) for x in l[6:].split('|'))
                out.append(d)
    except OSError:
        pass
    return out


def is_known(pid, v, ks):
    for k in ks:
        if k['property'] == pid and k.get('rule') == v['rule'] and k.get('file') == v['file'] and \
                k.get('function') == v['function'] and k.get('what') in v['msg'] and k.get('origin', '') in origin(v):
            return k
    return None


def origin(v):
    """The source line a finding says something was obtained at."""
    m = re.search(r'obtained at line (\d+)', v['msg'])
    try:
        return open(os.path.join(fe.REPO, v['file'])).read().splitlines()[int(m.group(1)) - 1]
    except (AttributeError, OSError, IndexError):
        return ''


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    c = checks.CHECKS[pid]
    os.makedirs(EV, exist_ok=True)
    results, excluded = [], {}
    try:
        for part in c.parts:
            if isinstance(part, checks.Own):
                rs, non = core.ownership(part.rels(), part.hooks, part.want)
                if part.rules is not None:
                    for r in rs:
                        r['violations'] = [v for v in r['violations'] if v['rule'] in part.rules]
                results.extend(rs)
                for k, v in non.items():
                    excluded.setdefault(k, []).extend('%s: %s' % x for x in v)
            else:
                try:
                    results.extend(part())
                except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as x:
                    results.append({'rel': '*', 'func': str(part), 'status': 'failed', 'why': repr(x)[:200], 'violations': [], 'stats': {}, 'samples': []})
    except fe.Broken as x:
        print('analysis broken: %s' % x)
        sys.exit(2)
    finally:
        core.close()
    ok = [r for r in results if r['status'] == 'ok']
    if not ok:
        print('analysis broken: nothing could be analysed')
        for r in results[:20]:
            print('  %s %s: %s' % (r['rel'], r['func'], r.get('why')))
        sys.exit(2)
    vs, seen = [], set()
    for r in results:
        for v in r['violations']:
            k = (v['rule'], v['file'], v['line'], v['msg'])
            if k not in seen:
                seen.add(k)
                vs.append(v)
    vs.sort(key=lambda v: (v['file'], v['line'], v['rule'], v['msg']))
    ks = known()
    bad, found = [], {}
    for v in vs:
        k = is_known(pid, v, ks)
        if k is not None:
            found[k['text']] = 1
        else:
            bad.append(v)
    stats = {}
    for r in ok:
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
    sample = {}
    for r in ok:
        sample.setdefault(r['rel'], []).append(r['func'])
    cov = {
        'explanation': c.explain,
        'rule': c.technique,
        'entry_points_analysed': len(ok),
        'analysed': {k: sorted(v) for k, v in sorted(sample.items())},
        'not_analysed': [dict(file=r['rel'], function=r['func'], why=r.get('why', r['status'])) for r in results if r['status'] != 'ok'],
        'excluded': {k: v for k, v in sorted(excluded.items()) if v},
        'counts': stats,
        'sampled_functions': sorted('%s: %s' % (r['rel'], r['func']) for r in ok if r.get('sampled') or r['stats'].get('capped')),
        'samples': [x for r in ok for x in r.get('samples', ())][:25] or ['%s: %s' % (r['rel'], r['func']) for r in ok[:10]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': c.assume,
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    for old in os.listdir(EV):
        if old.startswith(pid + '-'):
            os.unlink(os.path.join(EV, old))
    lines = []
    for i, v in enumerate(bad[:25]):
        p = os.path.join(EV, '%s-%d.txt' % (pid, i + 1))
        with open(p, 'w') as f:
            f.write('property: %s\nrule: %s\nwhere: %s:%s in %s (analysed from %s)\nwhat: %s\npath: %s\n' % (
                pid, v['rule'], v['file'], v['line'], v['function'], v['root'], v['msg'], v['path']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
        lines.append('  %s:%s: %s: %s [%s]' % (v['file'], v['line'], v['rule'], v['msg'], v['function']))
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d entry points analysed, %d not, %d violations, %.1f s' % (pid, len(ok), len(results) - len(ok), len(bad), time.time() - t0))
    for r in results:
        if r['status'] != 'ok':
            print('  not analysed: %s %s (%s)' % (r['rel'], r['func'], r.get('why', r['status'])))
    for t in found:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    print('\n'.join(lines))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
