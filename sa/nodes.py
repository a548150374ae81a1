"""Traversals: every part of every kind of node is handled, once.

What the parts of a kind of node are is read off the declaration of its
record.  A traversal is evaluated on abstract terms (facts.py); every way
through it that handles a node of some kind must hand each part of that kind
to the function for parts of its type exactly once, in every round of a loop
over all of them where the parts are elements of a vector.
"""
import re
import fe, terms, facts, spec, engine
from terms import Unsupported


class Trav(object):
    def __init__(self, file, func, params, node, cell, visit, done=(), loose=None, opaque=(), at_least=False, self_=(), quiet=(), whole=()):
        self.file = file; self.func = func; self.params = params; self.node = node; self.cell = cell
        self.visit = visit              # type of a part -> functions that handle it
        self.done = done                # facts or results that say the rest need not be looked at
        self.loose = loose or {}        # (kind, part) -> None (not handled here) or pattern of what may stand for handling it
        self.opaque = set(opaque)
        self.at_least = at_least
        self.whole = whole              # functions that take over the node as a whole
        self.self_ = self_              # functions to be called on the node itself
        self.quiet = set(quiet)         # kinds it need not know


class Part(object):
    def __init__(self, path, type, loops):
        self.path = path; self.type = type; self.loops = loops
        self.times = 1

    def __repr__(self):
        return self.path


def parts(tu, T, rec, want, base, loops=(), depth=0):
    """Parts of a record: (text with {} for indices, type, sizes)."""
    out = []
    r = tu.rec_by_name.get(rec) or tu.rec_by_name.get('struct ' + rec)
    if r is None or not r.fields:
        return out
    names = [f[0] for f in r.fields]
    vec = set(names) >= {'size', 'xs'}
    for f in r.fields:
        nm, ty = f[0], T.parse(f[1])
        if nm in ('_base', 'tag'):
            if nm == '_base' and ty[0] == 'rec':
                out += parts(tu, T, ty[1], want, base, loops, depth)
            continue
        p = base + '.' + nm
        if vec and nm == 'xs' and ty[0] == 'ptr':
            if 'xs' in want:
                out.append(Part(p, 'xs', loops))
            e = ty[1]
            ep = p + '[{}]'
            el = loops + (base + '.size',)
            if e[0] == 'ptr' and e[1][0] == 'rec' and e[1][1] in want:
                out.append(Part(ep, e[1][1], el))
            elif e[0] == 'rec':
                if e[1] in want:
                    out.append(Part(ep, e[1], el))
                elif depth < 5:
                    out += parts(tu, T, e[1], want, ep, el, depth + 1)
        elif ty[0] == 'ptr' and ty[1][0] == 'rec' and ty[1][1] in want and not (ty[1][1] + ':value') in want:
            out.append(Part(p, ty[1][1], loops))
        elif ty[0] == 'rec':
            if ty[1] in want:
                out.append(Part(p, ty[1], loops))
            elif depth < 5:
                out += parts(tu, T, ty[1], want, p, loops, depth + 1)
    return out


def fields(tu, T, rec, base, visit, depth=0, top=True):
    """What a copy has to have: (path, type, element fields or None)."""
    out = []
    r = tu.rec_by_name.get(rec) or tu.rec_by_name.get('struct ' + rec)
    for f in (r.fields if r is not None else ()):
        nm, ty = f[0], T.parse(f[1])
        if nm == '_base':
            out += fields(tu, T, ty[1], base, visit, depth, top)
            continue
        if top and nm in ('tag', 'magic', 'refcount', 'visiting') and rec in spec.BASES:
            continue
        p = base + '.' + nm
        if ty[0] == 'rec' and ty[1] not in visit and ty[1] not in ('FbleName', 'FbleLoc', 'FbleVar') and depth < 4:
            sub = tu.rec_by_name.get(ty[1]) or tu.rec_by_name.get('struct ' + ty[1])
            names = {x[0]: x[1] for x in sub.fields} if sub is not None else {}
            if {'size', 'xs'} <= set(names):
                e = T.parse(names['xs'])
                e = e[1] if e[0] == 'ptr' else None
                if e is not None and e[0] == 'rec' and e[1] not in visit and e[1] not in ('FbleName', 'FbleLoc', 'FbleVar'):
                    out.append((p, 'vec', fields(tu, T, e[1], '', visit, depth + 1, False)))
                else:
                    out.append((p, 'vec', [('', e[1][1] if e[0] == 'ptr' and e[1][0] == 'rec' else e[1] if e[0] == 'rec' else '', None)]))
            else:
                out += fields(tu, T, ty[1], p, visit, depth + 1, False)
            continue
        out.append((p, ty[1][1] if ty[0] == 'ptr' and ty[1][0] == 'rec' else ty[1] if ty[0] == 'rec' else '', None))
    return out


class Copy(object):
    """A function that makes a node like the one it is given, with its parts
    rewritten by the given functions."""

    def __init__(self, file, func, params, node, cell, visit, done=(), same=(), opaque=(), quiet=(), special=None, expect=None):
        self.file = file; self.func = func; self.params = params; self.node = node; self.cell = cell
        self.visit = visit; self.done = done
        self.same = set(same)           # (kind, part) taken over as it is
        self.opaque = set(opaque); self.quiet = set(quiet)
        self.expect = expect or {}      # (kind, part) -> pattern of its value
        self.special = special or {}    # kind -> pattern of its result, for kinds made otherwise


def group(ps):
    """Parts that read the same once: a field and one of the base."""
    out = {}
    for p in ps:
        if p.path in out:
            out[p.path].times += 1
        else:
            out[p.path] = p
    return list(out.values())


def kinds(tu, cell):
    """Value of each tag -> (name, record or None)."""
    enum = None
    rec, field = cell.split('.')
    r = tu.rec_by_name.get(rec) or tu.rec_by_name.get('struct ' + rec)
    for f in (r.fields if r is not None else ()):
        if f[0] == field:
            enum = f[1]
    vals = tu.enums.get(enum) or tu.enums.get('enum ' + (enum or ''))
    if vals is None:
        raise Unsupported('no tags of ' + cell)
    by = {c: r for r, (c2, c) in spec.TAGS.items() if c2 == cell}
    if cell == 'FbleInstr.tag':
        by = {c: r for r, cs in spec.INSTR.items() for c in cs}
    plain = rec if not by else None         # one record for all kinds
    return {v: (n, by.get(n, plain)) for n, v in vals}


class Walker(object):
    def __init__(self, tus):
        self.tus = tus
        self.found = []
        self.stats = {'ways': 0, 'obligations': 0, 'functions': 0}

    def possible(self, w, node, ks):
        t = node + '.tag'
        pos = {int(m.group(1)) for f in w.facts for m in [re.match(re.escape(t) + r' == (\d+)$', f)] if m}
        neg = {int(m.group(1)) for f in w.facts for m in [re.match(re.escape(t) + r' != (\d+)$', f)] if m}
        return [k for k in ks if (not pos or k in pos) and k not in neg]

    def calls(self, view, part, visitors):
        """Calls in a view that handle a part, with the text of its index."""
        n = []
        pat = re.compile(r'&?' + re.escape(part.path).replace(r'\{\}', r'(\??\w+)') + '$')
        for name, args, line, res in view.log:
            if name in visitors:
                for a in args:
                    m = pat.match(a)
                    if m:
                        n.append((m.groups(), line))
                        break
        return n

    def absent(self, facts_, path):
        return ('!' + path) in facts_ or (path + ' == 0') in facts_

    def judge(self, tr, w, part, vis, skip):
        """None if the part is handled once on a way, else what is wrong."""
        if not part.loops:
            c = self.calls(w, part, vis)
            inloop = [x for R in self.rounds(w) for s in R.subs for x in self.calls(s, part, vis)]
            if inloop:
                return '%s is handled in a loop' % part.path
            if len(c) > part.times and not tr.at_least:
                return '%s is handled %d times' % (part.path, len(c))
            if len(c) >= part.times or self.absent(w.facts, part.path):
                return None
            if skip and any(re.search(skip, f) for f in w.facts):
                return None
            return '%s is not handled' % part.path
        if part.loops and any(self.absent(w.facts, l) for l in part.loops):
            return None
        return self.loop(tr, w, part, part.loops, (), vis, skip)

    def rounds(self, view):
        for R in view.reps:
            yield R
            for s in R.subs:
                for x in self.rounds(s):
                    yield x

    def loop(self, tr, view, part, sizes, idx, vis, skip):
        size = sizes[0].replace('{}', '%s')
        size = size % idx if size.count('%s') == len(idx) else size
        why = None
        hits = 0
        for R in view.reps:
            if R.n == size and R.whole:
                names = None
            elif R.n is None:
                names = [v for v, i in R.init.items() if i == '0' and R.stops and all(any(f == '%s >= %s' % (v, size) for f in st) for st in R.stops)]
                if not names:
                    continue
            else:
                continue
            bad = None
            some = False
            for s in R.subs:
                if len(sizes) > 1:
                    x = self.loop(tr, s, part, sizes[1:], idx + (names[0] if names else facts.IDX[len(idx)],), vis, skip)
                    if x is None:
                        some = True
                    bad = bad or x
                    continue
                c = self.calls(s, part, vis)
                if c:
                    some = True
                if len(c) > 1 and not tr.at_least:
                    bad = '%s is handled %d times in a round' % (part.path.format('i', 'j'), len(c))
                if c and names and not (any(f == 'next(%s) = %s+1' % (c[0][0][-1], c[0][0][-1]) for f in s.facts) or
                                       any(f == 'next(%s) = 1' % c[0][0][-1] and '!' + c[0][0][-1] in s.facts for f in s.facts) or
                                       skip and any(re.search(skip, f) for f in s.facts)):
                    bad = '%s: the loop does not go from one to the next' % part.path.format('i', 'j')
                if not c:
                    ab = re.compile('!' + re.escape(part.path).replace(r'\{\}', r'\??\w+') + '$')
                    if any(ab.match(f) for f in s.facts) or skip and any(re.search(skip, f) for f in s.facts):
                        continue
                    bad = bad or '%s is not handled in every round' % part.path.format('i', 'j')
            if some or not R.subs:
                hits += 1 if some else 0
                why = why or bad
                if not R.subs:
                    hits += 1
        if not hits:
            # it may be known that there are none
            return '%s is not handled' % part.path.format('i', 'j')
        if hits > 1 and not tr.at_least:
            return '%s is handled in %d loops' % (part.path.format('i', 'j'), hits)
        return why

    def function(self, tr):
        tu = self.tus[tr.file]
        f = tu.functions.get(tr.func)
        if f is None or f.body is None:
            raise Unsupported('there is no %s any more' % tr.func)
        if len(f.params) != len(tr.params):
            raise Unsupported('%s has other parameters' % tr.func)
        self.stats['functions'] += 1
        T = engine.Types(tu)
        ks = kinds(tu, tr.cell) if '.' in tr.cell else {None: (tr.cell, tr.cell)}
        names = {fn for vs in tr.visit.values() for fn in vs} | set(tr.whole) | {fn for fs in tr.self_ for fn in (fs if isinstance(fs, tuple) else (fs,))}
        ev = terms.Eval(tu, opaque=(names | tr.opaque | {tr.func}))
        ev.exact = True
        ev.elements = False
        ev.pure |= tr.opaque
        args = [('sym', p) for p in tr.params]
        want = set(tr.visit)
        seen = set()
        for kind, st, v in ev.function(tr.func, tuple(args)):
            if kind not in ('return', 'next'):
                continue
            w = facts.Way(ev, kind, st, v, set())
            if not w.feasible or self.absent(w.facts, tr.node):
                continue
            res = w.text(w.v, w.scope) if w.v is not None else 'void'
            rs = ['return ' + res]
            if res.startswith('?') and w.v is not None and (res in w.facts or '!' + res in w.facts):
                rs.append('return 1' if res in w.facts else 'return 0')      # known to be so where it is returned
            if any(any(re.search(d, x) for x in rs) or any(re.search(d, x) for x in w.facts) for d in tr.done):
                continue
            self.stats['ways'] += 1
            ls = [e[2] for e in w.log if e[2]]
            line = ls[0] if ls else f.line or 0
            for k in ([None] if None in ks else self.possible(w, tr.node, ks)):
                name, rec = ks[k]
                if name in tr.quiet:
                    continue
                seen.add(k)
                if rec is None or any(l[0] in tr.whole and tr.node in l[1] for l in w.log):
                    continue
                for part in group(parts(tu, T, rec, want, tr.node)):
                    rel = part.path[len(tr.node) + 1:].replace('[{}]', '[]')
                    skip = None
                    key = (name, rel) if (name, rel) in tr.loose else (rec, rel)
                    if key in tr.loose:
                        skip = tr.loose[key]
                        if skip is None:
                            continue
                    self.stats['obligations'] += 1
                    bad = self.judge(tr, w, part, tr.visit[part.type], skip)
                    if bad:
                        self.found.append((tr.file, tr.func, line, '%s: %s' % (name, bad)))
                for fn in tr.self_:
                    self.stats['obligations'] += 1
                    fns = fn if isinstance(fn, tuple) else (fn,)
                    n = [l for l in w.log if l[0] in fns and tr.node in l[1]]
                    if len(n) != 1:
                        self.found.append((tr.file, tr.func, line, '%s: the node itself is given to %s %d times' % (name, fns[0], len(n))))
        for k, (name, rec) in ks.items():
            if k not in seen and name not in tr.quiet:
                self.found.append((tr.file, tr.func, f.line or 0, 'no way through handles %s' % name))


    def copy(self, tr):
        tu = self.tus[tr.file]
        f = tu.functions.get(tr.func)
        if f is None or f.body is None:
            raise Unsupported('there is no %s any more' % tr.func)
        if len(f.params) != len(tr.params):
            raise Unsupported('%s has other parameters' % tr.func)
        self.stats['functions'] += 1
        T = engine.Types(tu)
        ks = kinds(tu, tr.cell)
        ev = terms.Eval(tu, opaque=set(tr.visit.values()) | tr.opaque | {tr.func})
        ev.exact = True
        ev.elements = False
        ev.pure |= tr.opaque
        seen = set()
        for kind, st, v in ev.function(tr.func, tuple(('sym', p) for p in tr.params)):
            if kind not in ('return', 'next'):
                continue
            w = facts.Way(ev, kind, st, v, set())
            if not w.feasible or self.absent(w.facts, tr.node):
                continue
            res = w.text(w.v, w.scope) if w.v is not None else 'void'
            if any(re.search(d, x) for x in w.facts for d in tr.done):
                continue
            self.stats['ways'] += 1
            ls = [e[2] for e in w.log if e[2]]
            line = ls[0] if ls else f.line or 0
            for k in self.possible(w, tr.node, ks):
                name, rec = ks[k]
                if name in tr.quiet:
                    continue
                seen.add(k)
                self.stats['obligations'] += 1
                if name in tr.special:
                    if not re.search(tr.special[name], res):
                        self.found.append((tr.file, tr.func, line, '%s: the result is %s' % (name, res[:150])))
                    continue
                if not (re.match(r'\w+\((?:\w+, )*%d, %s\.loc\)$' % (k, re.escape(tr.node)), res) or '%s.tag := %d' % (res, k) in w.facts or k == 0 and '%s.tag := %s.tag' % (res, tr.node) in w.facts):
                    self.found.append((tr.file, tr.func, line, '%s: the result is not made a node of that kind (%s)' % (name, res[:100])))
                    continue
                made = re.match(r'\w+\((?:\w+, )*%d, ' % k, res)
                for p, ty, elem in fields(tu, T, rec, '', tr.visit):
                    if made and p == '.loc' and rec is not None:
                        continue
                    self.stats['obligations'] += 1
                    if ty != 'vec':
                        if not any(self.is_copy(tr, x, res + p, tr.node + p, ty, (rec, p[1:])) for x in w.facts):
                            self.found.append((tr.file, tr.func, line, '%s: %s of the result is not made from %s%s' % (name, p[1:], tr.node, p)))
                        continue
                    size = tr.node + p + '.size'
                    if ('!' + size) in w.facts:
                        continue
                    good = False
                    for R in w.reps:
                        if R.n != size or not R.whole or not R.subs:
                            continue
                        if all(self.element(tr, w, S, res + p, tr.node + p + '.xs[i]', elem, (rec, p[1:])) for S in R.subs):
                            good = R.dir == 'up' or any('[i]' in x for S in R.subs for x in S.facts if ' := ' in x)
                            break
                    if not good:
                        self.found.append((tr.file, tr.func, line, '%s: %s of the result is not made from every element of %s%s, in order' % (name, p[1:], tr.node, p)))
        for k, (name, rec) in ks.items():
            if k not in seen and name not in tr.quiet:
                self.found.append((tr.file, tr.func, f.line or 0, 'no way through handles %s' % name))

    def element(self, tr, w, S, dst, src, elem, key):
        ext = [l for l in S.log if l[0] == 'FbleExtendVectorRaw' and any(a == '&%s.xs' % dst for a in l[1])]
        if len(ext) != 1 and not (not ext and '%s.size := %s.size' % (dst, src[:-len('.xs[i]')]) in w.facts):
            return False
        for p, ty, e2 in elem:
            if ty == 'vec':
                return False
            if any(self.is_copy(tr, x, None, src + p, ty, (key[0], key[1] + '.xs[]' + p), p) for x in S.facts):
                continue
            if self.absent(S.facts, src + p) and any(re.search(re.escape(p) + ' := 0$', x) for x in S.facts):
                continue
            return False
        return True

    def is_copy(self, tr, fact, dst, src, ty, key, field=None):
        if ' := ' not in fact:
            return False
        d, v = fact.split(' := ', 1)
        if dst is not None and d != dst:
            return False
        if field and not d.endswith(field):
            return False
        if ty in tr.visit and key not in tr.same:
            return re.match(r'%s\((.*, )?%s(, .*)?\)$' % (tr.visit[ty], re.escape(src)), v) is not None
        return v == src or key in tr.expect and re.match(tr.expect[key], v) is not None


    def edges(self, tr):
        """Every reference stored in a type is reported to the collector."""
        tu = self.tus[tr.file]
        f = tu.functions.get(tr.func)
        self.stats['functions'] += 1
        ev = terms.Eval(tu, opaque=tr.opaque | {tr.func})
        ev.exact = True
        ev.elements = False
        refs = {}
        T = engine.Types(tu)
        for rec in spec.TYPE_RECS | {'FbleTaggedType'}:
            r = tu.rec_by_name.get(rec) or tu.rec_by_name.get('struct ' + rec)
            for x in (r.fields if r is not None else ()):
                t = T.parse(x[1])
                if t[0] == 'ptr' and t[1][0] == 'rec' and t[1][1] in spec.TYPE_RECS:
                    refs.setdefault(x[0], set()).add(rec)
        seen = set()
        for kind, st, v in ev.function(tr.func, tuple(('sym', p) for p in tr.params)):
            if kind not in ('return', 'next'):
                continue
            w = facts.Way(ev, kind, st, v, set())
            if not w.feasible:
                continue
            self.stats['ways'] += 1
            views = [(w, st, w.scope, None)] + [(S, S.p, S.scope, S.head) for R in self.rounds(w) for S in R.subs]
            for view, s, sc, head in views:
                for key, x in s.mem.items():
                    if not key[1] or key[1][-1][0] != 'f' or x == terms.ZERO or x[0] == 'any' and x[1] == 'loop' or head is not None and head.mem.get(key) == x:
                        continue
                    name = key[1][-1][1].split('.')[-1]
                    if name not in refs or key[0][0] == 'var' and not any(p[0] == 'i' for p in key[1]):
                        continue
                    X = w.text(x, sc)
                    if X.startswith(('zero', '0', '?')) and not X.startswith('?'):
                        continue
                    b = w.text(key[0], sc)
                    B = (b[1:] if key[0][0] == 'addr' else b) + w.path(key[1][:-1], lambda y: w.text(y, sc))
                    if re.match(r'FbleAlloc\w*\(', B) and name == 'type':
                        # an element of the fields of a type
                        own = {a[1:-len('.fields.xs')] for l in view.log if l[0] == 'FbleExtendVectorRaw' for a in l[1] if re.match(r'&FbleNewTypeRaw\(.*\)\.fields\.xs$', a)}
                        if not own:
                            continue
                    elif re.match(r'FbleNewTypeRaw\([^()]*\)$', B) or name == 'value' and not B.endswith(']') and not B.startswith('{'):
                        own = {B}
                    else:
                        continue
                    self.stats['obligations'] += 1
                    ok = any(l[0] == 'FbleTypeAddRef' and len(l[1]) == 3 and l[1][1] in own and l[1][2] == X for l in view.log)
                    if not ok and (B, name) not in seen:
                        seen.add((B, name))
                        ls = [l[2] for l in view.log if l[2]]
                        self.found.append((tr.file, tr.func, ls[-1] if ls else f.line or 0, '%s of %s is made to refer to %s, which the collector is not told' % (name, B[:120], X[:120])))


class Edges(object):
    def __init__(self, file, func, params, opaque):
        self.file = file; self.func = func; self.params = params; self.opaque = set(opaque)


def edge_functions(tu, file):
    """Functions that store references in types."""
    import rules
    out = []
    for name, f in sorted(tu.functions.items()):
        if f.body is None or (f.file or '').startswith('/') or not f.file or not f.file.endswith(file):
            continue
        if any(n.k == 'CallExpr' and fe.callee(n) in ('FbleTypeAddRef', 'FbleNewTypeRaw') or
               n.k == 'BinaryOperator' and n.op == '=' and n.c and n.c[0].k == 'MemberExpr' and getattr(n.c[0], 'name', None) == 'value' for n in fe.walk(f.body)):
            if name in ('FbleTypeRefs', 'Ref', 'FbleNewTypeRaw'):
                continue
            out.append(Edges(file, name, [p[0] or 'p%d' % i for i, p in enumerate(f.params)], rules.KNOWN - {name}))
    return out


FREE = {'FbleExpr': {'FbleFreeExpr'}, 'FbleTc': {'FbleFreeTc'}, 'FbleName': {'FbleFreeName'}, 'FbleLoc': {'FbleFreeLoc'},
        'FbleKind': {'FbleFreeKind'}, 'FbleModulePath': {'FbleFreeModulePath'}, 'FbleString': {'FbleFreeString'}, 'xs': {'FbleFree'}}

COMPILE = {'FreeLocal', 'NewLocal', 'ReleaseLocal', 'PushVar', 'PopVar', 'GetVar', 'SetVar', 'RewriteVar', 'RewriteVars', 'InitScope', 'FreeScope', 'AppendInstr',
           'AppendDebugInfo', 'AppendProfileOp', 'PushBlock', 'PushBodyBlock', 'EnterBlock', 'PopBlock', 'ExitBlock', 'CompileExit', 'Compile', 'CompileModule'}


def table():
    fr = lambda *more: {k: v for k, v in FREE.items() if k in more}
    E = 'FbleExpr.tag'
    exprs = {'FbleExpr': {'Expr'}}
    import rules
    tcs = {'TypeCheckExpr', 'TypeCheckType', 'TypeCheckExprForType', 'TypeCheckExprWithCleaner', 'TypeCheckTypeWithCleaner'}
    T = 'lib/typecheck.c'
    Y = 'FbleType.tag'
    M = 'FbldMarkup.tag'
    plain = {('FBLD_MARKUP_PLAIN', 'markups.xs[]'): None, ('FBLD_MARKUP_PLAIN', 'markups.xs'): None}
    return [
        Trav('lib/expr.c', 'FbleFreeExpr', ['expr'], 'expr', E, fr('FbleExpr', 'FbleName', 'FbleLoc', 'FbleKind', 'FbleModulePath', 'xs'), self_=('FbleFree',),
             loose={('FbleUnionSelectExpr', 'choices.xs[].name'): r'^!expr\.choices\.xs\[\??\w+\]\.expr$'}),
        Trav('lib/tc.c', 'FbleFreeTc', ['tc'], 'tc', 'FbleTc.tag', fr('FbleTc', 'FbleName', 'FbleLoc', 'xs'), self_=('FbleFree',), done=[r'^tc\.refcount-1$']),
        Trav('lib/kind.c', 'FbleFreeKind', ['kind'], 'kind', 'FbleKind.tag', fr('FbleLoc', 'FbleKind'), self_=('FbleFree',), done=[r'^kind\.refcount-1$', r'^kind\.refcount != 1$']),
        Trav('lib/code.c', 'FbleFreeInstr', ['instr'], 'instr', 'FbleInstr.tag', {'FbleLoc': {'FbleFreeLoc'}, 'xs': {'FbleFree'}, 'FbleCode': {'FbleFreeCode'}}, self_=('FbleFree',)),
        Trav('lib/type.c', 'FbleTypeOnFree', ['type'], 'type', Y, fr('FbleName', 'FbleLoc', 'FbleKind', 'FbleModulePath', 'xs')),
        Trav('lib/type.c', 'FbleTypeRefs', ['heap', 'type'], 'type', Y, {'FbleType': {'FbleTypeAddRef'}}),
        Trav('lib/type.c', 'HasParam_', ['type', 'param'], 'type', Y, {'FbleType': {'HasParam'}}, done=['^return 1$'],
             loose={('FblePolyType', 'body'): '^type.arg == param$', ('FblePolyType', 'arg'): None, ('FbleAbstractType', 'package'): None}),
        Trav('lib/type.c', 'Subst', ['heap', 'type', 'param', 'arg', 'tps'], 'type', Y, {'FbleType': {'Subst'}}, opaque=['HasParam'], quiet=['FBLE_PACKAGE_TYPE'], done=[r'^!HasParam\(type, param\)$'],
             loose={('FblePolyType', 'arg'): None, ('FbleAbstractType', 'package'): None, ('FbleVarType', 'value'): r'^node\[.*\]\.a == type\.value$'}),
        Trav('lib/type.c', 'LevelAdjustedKind', ['kind', 'increment'], 'kind', 'FbleKind.tag', {'FbleKind': {'LevelAdjustedKind', 'FbleCopyKind'}, 'FbleLoc': {'FbleCopyLoc'}}),
        Trav('lib/unused.c', 'Expr', ['expr', 'vars'], 'expr', E, exprs, loose={('FbleLetExpr', 'bindings.xs[].expr'): r'^!.*\.used$|^processed\[.*\]$|^processed\[.*\] := 1$'}),
        Trav('fbld/markup.c', 'FbldFreeMarkup', ['markup'], 'markup', M, {'FbldText': {'FbldFree', 'FbleFree'}, 'FbldMarkup': {'FbldFreeMarkup'}, 'xs': {'FbldFree', 'FbleFree'}},
             self_=(('FbldFree', 'FbleFree'),), done=[r'^markup\.refcount-1$', r'^0 < markup.refcount-1']),
        Trav('fbld/markup.c', 'FbldDebugMarkup', ['markup'], 'markup', M, {'FbldMarkup': {'FbldDebugMarkup'}}, loose=plain),
        Trav('fbld/markup.c', 'TextOfMarkup', ['markup', 'text', 'capacity'], 'markup', M, {'FbldMarkup': {'TextOfMarkup'}}, loose=plain, quiet=['FBLD_MARKUP_COMMAND'], done=['^return 0$']),
        # UNION_SELECT matches the choices against the tags of the type: see the typing rules
        Trav(T, 'TypeCheckExprWithCleaner', ['th', 'scope', 'expr', 'cleaner'], 'expr', E, {'FbleExpr': tcs - {'TypeCheckExprWithCleaner'}}, opaque=rules.KNOWN,
             whole=['TypeCheckType'], loose={('FbleUnionSelectExpr', 'choices.xs[].expr'): None}, done=[r'^return \{.*\.type=0']),
        Trav(T, 'TypeCheckTypeWithCleaner', ['th', 'scope', 'type', 'cleaner'], 'type', E, {'FbleExpr': tcs - {'TypeCheckTypeWithCleaner'}}, opaque=rules.KNOWN,
             whole=['TypeCheckExpr', 'TypeCheckExprForType'], done=['^return 0$']),
        # nested functions and applications are merged: see the rules of translation
        Trav('lib/compile.c', 'CompileExpr', ['blocks', 'stmt', 'exit', 'scope', 'tc'], 'tc', 'FbleTc.tag', {'FbleTc': {'CompileExpr'}}, opaque=COMPILE,
             loose={('FbleFuncValueTc', 'body'): None, ('FbleFuncApplyTc', 'func'): None, ('FbleFuncApplyTc', 'arg'): None}),
        Copy('lib/compile.c', 'RewriteVars', ['statics', 'arg_offset', 'tc'], 'tc', 'FbleTc.tag', {'FbleTc': 'RewriteVars', 'FbleVar': 'RewriteVar'},
             same=[('FbleFuncValueTc', 'body')], special={'FBLE_TYPE_VALUE_TC': '^tc$', 'FBLE_LITERAL_TC': '^tc$'}),
        Copy('lib/type.c', 'Subst', ['heap', 'type', 'param', 'arg', 'tps'], 'type', Y, {'FbleType': 'Subst'}, opaque=['HasParam'], quiet=['FBLE_PACKAGE_TYPE'],
             done=[r'^!HasParam\(type, param\)$'], same=[('FblePolyType', 'arg'), ('FbleAbstractType', 'package')], special={'FBLE_VAR_TYPE': ''}),
        Copy('lib/type.c', 'LevelAdjustedKind', ['kind', 'increment'], 'kind', 'FbleKind.tag', {'FbleKind': 'LevelAdjustedKind'}, same=[('FblePolyKind', 'arg')],
             expect={('FbleBasicKind', 'level'): r'^(increment\+kind\.level|kind\.level\+increment)$'}),
    ]


BAD = (Unsupported, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError)


def edges():
    """References between types."""
    gen = fe.Gen()
    try:
        trs = []
        for file in ('lib/type.c', 'lib/typecheck.c'):
            trs += edge_functions(fe.TU(file, gen), file)
    finally:
        gen.close()
    return check(trs)


def check(trs=None):
    out = []
    gen = fe.Gen()
    try:
        tus = {}
        for tr in trs or table():
            r = {'rel': tr.file, 'func': tr.func, 'status': 'ok', 'violations': [], 'stats': {'ways': 0, 'obligations': 0}, 'samples': []}
            out.append(r)
            c = Walker(tus)
            try:
                if tr.file not in tus:
                    tus[tr.file] = fe.TU(tr.file, gen)
                c.copy(tr) if isinstance(tr, Copy) else c.edges(tr) if isinstance(tr, Edges) else c.function(tr)
            except fe.Broken as x:
                r['status'] = 'broken'; r['why'] = str(x)[:200]
                continue
            except BAD as x:
                r['status'] = 'undecided'; r['why'] = '%s: %s' % (type(x).__name__, str(x)[:200])
                continue
            r['stats'] = {'ways': c.stats['ways'], 'obligations': c.stats['obligations']}
            for file, f, line, msg in c.found:
                r['violations'].append({'rule': 'nodes', 'file': file, 'line': line, 'function': f, 'root': f, 'msg': msg[:600], 'path': ''})
    finally:
        gen.close()
    return out


if __name__ == '__main__':
    import sys
    names = [a for a in sys.argv[1:] if a != '-v']
    for r in edges() if '-e' in names else check([t for t in table() if not names or t.func in names]):
        if r['status'] != 'ok' or '-v' in sys.argv:
            print((r['func'], r['status'], r.get('why', ''), r['stats']))
        for v in r['violations']:
            print((v['file'], v['function'], v['line'], v['msg']))
