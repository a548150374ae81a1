"""Ownership analysis of functions against their contracts."""
from engine import Engine, SV, NULL, DC, UN, Sym, State
import spec as S


def setup_params(modes):
    """modes: {index: 'own' | 'nullable' ...}; default borrowed, non-null."""
    def setup(eng, st, f, frame):
        for i, (pname, pty, pid, _) in enumerate(f.params):
            root = frame[pid]
            t = eng.T.parse(pty)
            m = modes.get(i, '')
            own = 1 if 'own' in m else 0
            if t[0] == 'rec':
                for p, lt in eng.leaves(t[1]):
                    cs = eng.cellspec(p)
                    if lt[0] == 'ptr':
                        esp = cs[1] if type(cs) is tuple else None
                        isown = own and (cs == 'own' or type(cs) is tuple)
                        # a borrowed struct that holds a vector: elements are borrowed with it
                        v = eng.newsym(st, lt, own=1 if isown else 0, b=not isown, esp=esp,
                                       neq=frozenset() if 'nullable' in m else frozenset([0]))
                        st.store[(root, p)] = v
                        if p[-1].endswith('.xs'):
                            st.memo[('sizeof', v)] = (root, p[:-1] + (p[-1][:-3] + '.size',))
                    elif lt[0] in ('int', 'enum'):
                        st.store[(root, p)] = eng.newsym(st, lt)
                    else:
                        st.store[(root, p)] = DC
            elif m == 'dc':
                st.store[(root, ())] = DC
            elif t[0] == 'ptr' and m == 'drain':
                v = eng.newsym(st, t, own=1, b=False, neq=frozenset([0]))
                st.store[(root, ())] = v
                st.store[(('L', 0, '$drain%d' % i), ())] = v
            elif t[0] == 'ptr':
                v = eng.newsym(st, t, own=own, b=not own, neq=frozenset() if 'nullable' in m else frozenset([0]))
                st.store[(root, ())] = v
            elif t[0] in ('int', 'enum'):
                st.store[(root, ())] = eng.newsym(st, t)
            else:
                st.store[(root, ())] = DC
        return [st]
    return setup


def balance(eng, st, ret_holders, node, what='return'):
    """Every tracked object: references held == owning places that remain."""
    h = eng.holders(st)
    for v in ret_holders:
        if v[0] == 'p' and not v[1][1]:
            h[v[1][0]] = h.get(v[1][0], 0) + 1
        elif v[0] == 's':
            h[('s', v[1])] = h.get(('s', v[1]), 0) + 1
    for r, o in st.objs.items():
        if o.own is None or o.dc:
            continue
        c = h.get(r, 0)
        if o.dead:
            if c:
                eng.viol(st, 'dangling', node, '%s obtained at %s was released at line %s but is still referred to by what the function leaves behind' % (o.rec or 'memory', o.origin, o.dead), key='dangling %s' % (o.origin,))
            continue
        if o.own > c:
            eng.leak(st, r, o, node)
        elif o.own < c:
            eng.viol(st, 'unowned', node, '%s (%s) is handed over or stored without a reference of its own' % (o.rec or 'memory', o.origin or 'borrowed'), key='unowned %s' % (o.origin,))
    for s, f in st.syms.items():
        if f.ty[0] != 'ptr' or f.own is None or f.dc:
            continue
        c = h.get(('s', s), 0)
        if f.own > c:
            eng.viol(st, 'leak', node, 'a value of type %s is not released (or handed over) on this path' % eng.tyname(f.ty), key='leak %s' % eng.tyname(f.ty))
        elif f.own < c:
            eng.viol(st, 'unowned', node, 'a value of type %s is handed over or stored without a reference of its own' % eng.tyname(f.ty), key='unowned %s' % eng.tyname(f.ty))


def edges_ok(eng, st, node):
    """Types stored in types by this function are known to the collector."""
    for loc, v in st.store.items():
        if v[0] != 'p' or isinstance(loc[0], tuple):
            continue
        o = st.objs.get(loc[0])
        if o is None or o.dead or o.dc or o.kind != 'fresh':
            continue
        cs = eng.cellspec(loc[1], o.esp or 'rec')
        if cs != 'edge':
            continue
        owner = loc[0]
        if loc[1] and loc[1][0] in ('[K]',):
            owner = None
            for l2, v2 in st.store.items():
                if v2 == ('p', (loc[0], ())) and not isinstance(l2[0], tuple) and l2[1] and l2[1][-1].endswith('.xs'):
                    owner = l2[0]
        if owner is None:
            continue
        if (owner, v[1][0]) not in st.edges:
            t = st.objs.get(v[1][0])
            if t is not None and t.dc:
                continue
            eng.viol(st, 'gc-edge', node, 'a reference from a type (made at %s) to another is stored in %s but not reported to the collector' % (o.origin, loc[1][-1].split('.')[-1]), key='edge %s %s' % (o.origin, loc[1][-1]))
    # symbols (never looked at) stored in fresh types
    for loc, v in st.store.items():
        if v[0] != 's' or isinstance(loc[0], tuple):
            continue
        o = st.objs.get(loc[0])
        if o is None or o.dead or o.dc or o.kind != 'fresh':
            continue
        if eng.cellspec(loc[1], o.esp or 'rec') == 'edge':
            f = st.syms.get(v[1])
            if f is not None and f.ty[0] == 'ptr' and not f.dc:
                eng.viol(st, 'gc-edge', node, 'a reference from a type (made at %s) to another is stored in %s but not reported to the collector' % (o.origin, loc[1][-1].split('.')[-1]), key='edge %s %s' % (o.origin, loc[1][-1]))


def array_objs(st):
    return set(v[1][0] for loc, v in st.store.items()
               if v[0] == 'p' and not v[1][1] and loc[1] and isinstance(loc[1][-1], str) and loc[1][-1].endswith('.xs'))


def uninit_fields(eng, st, node, arrays=()):
    """Fresh records that survive the function have every field set."""
    arrays = set(arrays)
    for loc, v in st.store.items():
        if v[0] == 'p' and not v[1][1] and loc[1] and isinstance(loc[1][-1], str) and loc[1][-1].endswith('.xs'):
            arrays.add(v[1][0])
        if loc[1] and isinstance(loc[1][0], str) and loc[1][0].startswith('['):
            arrays.add(loc[0])
    for r, o in st.objs.items():
        if o.kind != 'fresh' or o.dead or o.dc or not o.rec or r in arrays:
            continue
        for p, t in eng.leaves(o.rec):
            if t[0] in ('ptr', 'int', 'enum'):
                v = st.store.get((r, p))
                if v is None or v == UN:
                    eng.viol(st, 'uninit-field', node, 'field %s of the %s made at %s is never set on this path' % (p[-1].split('.')[-1], o.rec, o.origin), key='uf %s %s' % (o.origin, p))


def drained(eng, st, v, node):
    """The object's contents have all been released (its own memory is the
    caller's affair)."""
    v = eng.cur_val(st, v)
    if v[0] == 's':
        f = st.syms.get(v[1])
        if f is not None:
            st.syms[v[1]] = f.upd(own=0)
        return
    if v[0] != 'p' or v[1][0] not in st.objs:
        return
    r = v[1][0]
    o = st.objs[r]
    if o.dead or o.dc:
        return
    for rec in S.real_recs(eng, st, r, o.rec) if o.rec else ():
        for p, lt in eng.leaves(rec):
            cs = eng.cellspec(p)
            if lt[0] != 'ptr' or not (cs == 'own' or type(cs) is tuple):
                continue
            x = st.store.get((r, p))
            if x is not None:
                x = eng.cur_val(st, x)
            if x is None or (x[0] == 's' and x[1] in st.syms and st.syms[x[1]].own):
                eng.viol(st, 'leak', node, '%s of the %s is not released on this path' % (p[-1].split('.')[-1] if not p[-1].endswith('.xs') else p[-2].split('.')[-1], rec), key='drain %s' % (p,))
            elif x[0] == 'p' and x[1][0] in st.objs and not st.objs[x[1][0]].dead and st.objs[x[1][0]].own:
                eng.viol(st, 'leak', node, '%s of the %s is not released on this path' % (p[-1].split('.')[-1] if not p[-1].endswith('.xs') else p[-2].split('.')[-1], rec), key='drain %s' % (p,))
    for loc in [l for l in st.store if l[0] == r]:
        del st.store[loc]
    st.objs[r] = o.upd(own=0, dead=node.line or 1)
    for loc in [l for l, x in st.store.items() if x[0] == 'p' and x[1][0] == r]:
        del st.store[loc]


def finish(ret='', fields=True):
    ret = ret or ''
    def fin(eng, st, v, node):
        for h in eng.hooks:
            h.before_return(eng, st, v if isinstance(v, SV) else eng.cur_val(st, v), node)
        for loc in [l for l in st.store if isinstance(l[0], tuple) and l[0][0] == 'L' and str(l[0][-1]).startswith('$drain')]:
            drained(eng, st, st.store[loc], node)
        # locals are gone
        for loc in [l for l in st.store if isinstance(l[0], tuple) and l[0][0] == 'L']:
            del st.store[loc]
        v = eng.cur_val(st, v)
        hold = []
        if 'own' in ret:
            if isinstance(v, SV):
                for p, x in v.m.items():
                    cs = eng.cellspec(p)
                    if cs == 'own' or type(cs) is tuple:
                        hold.append(x)
                        if type(cs) is tuple and x[0] == 'p' and x[1][0] in st.objs:
                            a = st.objs[x[1][0]]
                            if a.esp is None:
                                st.objs[x[1][0]] = a.upd(esp=cs[1])
            else:
                hold.append(v)
                if 'vec' in ret and v[0] == 'p' and v[1][0] in st.objs:
                    st.objs[v[1][0]] = st.objs[v[1][0]].upd(esp='own')
        if not isinstance(v, SV) and v == NULL and ret == 'own':
            eng.viol(st, 'null-return', node, 'returns nothing although callers rely on a result', key='nullret')
        # what is returned must be alive
        for x in (v.m.values() if isinstance(v, SV) else [v]):
            if x[0] == 'p' and x[1][0] in st.objs:
                o = st.objs[x[1][0]]
                if o.dead and not o.dc:
                    eng.viol(st, 'use-after-release', node, 'returns %s obtained at %s after it was released at line %s' % (o.rec or 'memory', o.origin, o.dead), key='uarret')
        balance(eng, st, hold, node)
        edges_ok(eng, st, node)
        if fields:
            uninit_fields(eng, st, node)
        for h in eng.hooks:
            h.on_return(eng, st, v, node)
    return fin


class Hook(object):
    rep = False         # wants iterations about element K told from the others
    def on_start(self, eng, st, f, frame): pass
    def before_return(self, eng, st, v, node): pass
    def on_store(self, eng, st, loc, v, n): pass
    def on_member(self, eng, st, loc, rec, f, n): pass
    def on_call(self, eng, st, name, vs, n): return None
    def after_call(self, eng, name, vs, n, res): return res
    def on_backedge(self, eng, st, head, n, cond): pass
    def on_exit_call(self, eng, st, vs, n): pass
    def on_return(self, eng, st, v, node): pass


class Tags(Hook):
    """Contents specific to one kind are only accessed in objects of that kind."""

    def on_store(self, eng, st, loc, v, node):
        o = st.objs.get(loc[0])
        if o is None or o.kind != 'fresh' or o.rec is None or len(loc[1]) != 1 or v[0] != 'i':
            return
        t = S.TAGS.get(o.rec)
        consts = [t[1]] if t else list(S.INSTR.get(o.rec) or ())
        if not consts or loc[1][0] != (t[0] if t else 'FbleInstr.tag'):
            return
        want = [eng.tu.enum_val[c] for c in consts if c in eng.tu.enum_val]
        if want and v[1] not in want:
            eng.viol(st, 'tag', node, 'a new %s is marked as another kind' % o.rec, key='mark %s' % o.rec)

    def on_member(self, eng, st, loc, rec, f, n):
        t = S.TAGS.get(rec)
        multi = S.INSTR.get(rec)
        if t is None and multi is None:
            return
        cell = t[0] if t else 'FbleInstr.tag'
        consts = [t[1]] if t else list(multi)
        root, path = loc
        if path:
            return
        o = st.objs.get(root)
        if o is None or o.dc:
            return
        eng.stats['tagchecks'] += 1
        v = st.store.get((root, (cell,)))
        want = [eng.tu.enum_val[c] for c in consts if c in eng.tu.enum_val]
        if v is not None and v[0] == 'i' and v[1] in want:
            return
        if v is not None and v[0] == 's' and v[1] in st.syms:
            sy = st.syms[v[1]]
            allv = [x for _, x in eng.tu.enums.get(sy.ty[1] if sy.ty[0] == 'enum' else '', ())]
            if allv and all(x in want or x in sy.neq for x in allv):
                return
        if o.kind == 'fresh' and (o.rec is None or o.rec == rec and (v is None or v[0] == 'u')):
            return      # about to be made one: see on_store
        eng.viol(st, 'tag', n, 'accesses %s of a %s where the object is not known to be one' % (f, rec), key='tag %s.%s' % (rec, f))


def run(tu, spec, fname, pmodes=None, ret='', hooks=(), fields=True, maxsteps=None, states=None):
    eng = Engine(tu, spec)
    eng.hooks = list(hooks)
    if maxsteps:
        eng.MAXSTEPS = maxsteps
    if states:
        eng.MAXSTATES = states
    f = tu.functions[fname]
    sp = setup_params(pmodes or {})

    def setup(e, st, f, frame):
        sts = sp(e, st, f, frame)
        for s in sts:
            for h in e.hooks:
                h.on_start(e, s, f, frame)
        return sts
    eng.analyse(f, setup, finish(ret, fields))
    return eng
