"""Runs analyses over the sources in parallel and collects what they report."""
import os, sys, json, time, traceback
from multiprocessing import Pool
import fe, engine, own, contracts, grammar, mon
from fe import walk

JOBS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)
_gen = None
_tus = {}


def gen():
    global _gen
    if _gen is None:
        _gen = fe.Gen()
    return _gen


def tu(rel):
    if rel not in _tus:
        _tus[rel] = fe.TU(rel, gen())
    return _tus[rel]


# -- what is analysed as an entry point ----------------------------------------
def roots(rel, t, spec):
    """[(function, return mode, parameter modes)] and [(function, why not)]."""
    d = contracts.PER_TU.get(rel, {})
    called, addr = set(), set()
    for f in t.functions.values():
        if not f.body:
            continue
        for n in walk(f.body):
            if n.k == 'CallExpr':
                c = fe.callee(n)
                if c:
                    called.add(c)
    out, non = [], []
    for f in t.functions.values():
        if f.file != rel or not f.body:
            continue
        if f.name in d.get('skip', ()):
            non.append((f.name, 'excluded: analysed by another rule'))
            continue
        h = spec.handler(f.name)
        if f.static and not h and f.name not in d.get('modes', {}):
            if f.name not in called:
                non.append((f.name, 'never called by name and has no contract'))
            continue
        if not contracts.signature_ok(rel, f):
            non.append((f.name, 'its parameters are not those its contract was written for'))
            continue
        m = contracts.modes_for(rel, f, spec)
        if m is None:
            non.append((f.name, 'primitive: part of the specification'))
            continue
        out.append((f.name, m[0], m[1]))
    return out, non


def engine_task(task):
    kind, rel, what, hooks = task
    res = []
    try:
        t = tu(rel)
        spec = contracts.spec_for(rel, t)
    except fe.Broken as x:
        return [dict(rel=rel, func='*', status='unparsed', why=str(x)[:500], violations=[], stats={})]
    if kind == 'grammar':
        fs, missing, rules, acts = grammar.analyse(t, spec, gen(), lambda: mon.make(hooks, rel, None))
        for i, f in enumerate(fs):
            if i % what[1] == what[0]:
                res.append(run1(rel, 'rule %d' % i, f))
        if what[0] == 0:
            for s in missing:
                res.append(dict(rel=rel, func='%destructor', status='ok', stats={'stmts': 1}, violations=[
                    {'rule': 'leak', 'file': rel, 'line': 0, 'function': '%destructor', 'root': 'yydestruct',
                     'msg': 'symbols %s own what they hold but nothing releases it when the parser discards them' % s, 'path': ''}]))
        return res
    for name, ret, pm in what:
        go = lambda states=None: own.run(t, spec, name, pm, ret, mon.make(hooks, rel, name), states=states)
        r = run1(rel, name, lambda: go(SMALL.get(name)))
        if r['status'] == 'budget':
            r = run1(rel, name, lambda: go(16))
            r['sampled'] = True
        res.append(r)
    return res


def run1(rel, name, f):
    t0 = time.time()
    try:
        e = f()
    except engine.Budget as x:
        return dict(rel=rel, func=name, status='budget', why='more states than the budget allows', violations=[], stats={}, wall=time.time() - t0)
    except RecursionError:
        return dict(rel=rel, func=name, status='unsupported', why='nesting', violations=[], stats={}, wall=time.time() - t0)
    except Exception as x:
        return dict(rel=rel, func=name, status='unsupported', why='%s: %s' % (type(x).__name__, str(x)[:200]),
                    tb=traceback.format_exc()[-600:], violations=[], stats={}, wall=time.time() - t0)
    vs = list(e.violations.values())
    for v in vs:
        v['root'] = name if not name.startswith('rule ') else e.cur_name
    st = {k: v for k, v in e.stats.items() if isinstance(v, int)}
    return dict(rel=rel, func=name if not name.startswith('rule ') else e.cur_name, status='ok', violations=vs, stats=st,
                unknown=sorted(e.stats.get('unknown', ())), wall=time.time() - t0)


# functions with more paths than are worth following: a sample of them is
SMALL = {'FbleDisassemble': 24}
HEAVY = {'FbleDisassemble': 9, 'EmitCode': 9, 'TypeCheckExprWithCleaner': 9, 'CompileExpr': 9, 'Eval': 20, 'FbleProfilesTestMain': 9, 'main': 5}


def plan(rels, hooks=(), want=None):
    """Tasks, the expensive ones first."""
    tasks, nons = [], {}
    for rel in rels:
        t = tu(rel)
        spec = contracts.spec_for(rel, t)
        rs, non = roots(rel, t, spec)
        nons[rel] = non
        if not rs and rel not in contracts.NOROOTS:
            raise fe.Broken('no function of %s is analysed' % rel)
        light = []
        for r in rs:
            if want is not None and not want(rel, r[0]):
                continue
            if r[0] in HEAVY:
                tasks.append((HEAVY[r[0]], ('own', rel, [r], hooks)))
            else:
                light.append(r)
        for i in range(0, len(light), 12):
            tasks.append((1, ('own', rel, light[i:i + 12], hooks)))
        if rel.endswith('.y') and want is None:
            for i in range(4):
                tasks.append((5, ('grammar', rel, (i, 4), hooks)))
    tasks.sort(key=lambda x: -x[0])
    return [t for _, t in tasks], nons


def load_all(rels):
    """Parse the sources in parallel."""
    gen().bison() if any(r.endswith('.y') for r in rels) else None
    rels = [r for r in rels if r not in _tus]
    with Pool(JOBS) as p:
        for rel, t in p.imap_unordered(_load, rels):
            if isinstance(t, str):
                raise fe.Broken(t)
            t.gen = gen()
            _tus[rel] = t


def _load(rel):
    try:
        t = fe.TU(rel, gen())
        t.gen = None
        return rel, t
    except fe.Broken as x:
        return rel, str(x)


def ownership(rels, hooks=(), want=None):
    """Results of every entry point of the given sources."""
    load_all(rels)
    tasks, nons = plan(rels, tuple(hooks), want)
    out = []
    with Pool(JOBS) as p:
        for r in p.imap_unordered(engine_task, tasks):
            out.extend(r)
    out.sort(key=lambda r: (r['rel'], r['func']))
    return out, nons


def close():
    if _gen is not None:
        _gen.close()
