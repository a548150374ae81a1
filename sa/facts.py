"""What every way through a function that accepts its input has established.

A function is evaluated on abstract terms (terms.py).  Every way out is then
read as a set of facts: conditions known to hold, written canonically in
terms of what the function was given, and for every loop the facts that hold
in each of its rounds.  A round that raises a flag which the way out needs
unraised cannot have happened on that way and is left out; the flag must
stay raised once it is.
"""
import re
import fe, terms
from terms import Rep, Unsupported, add, lin, mklin, ZERO

SYM = {'FbleNamesEqual', 'FbleTypesEqual', 'FbleKindsEqual', 'FbleModulePathsEqual', 'FbleStringsEqual'}
SAME = {'FbleCopyKind', 'FbleRetainType', 'FbleCopyName', 'FbleCopyTc', 'FbleCopyLoc', 'FbleCopyModulePath', 'FbleCopyString'}
IDX = 'ijkmnopq'
FORTH = lambda depth: chr(0xe000 + 2 * depth)      # the index, while it is not known which way it counts
BACK = lambda depth: chr(0xe001 + 2 * depth)


def base(v):
    """Name of a variable without what makes it unique."""
    return re.sub(r"^\d+:|#\w+", '', v)


class Way(object):
    """One way out of a function."""

    def __init__(self, ev, kind, st, v, ctx=()):
        self.ev = ev
        self.kind = kind; self.st = st; self.v = v
        self.ctx = set(ctx)
        self.arrays = {}
        self.calls = {}
        self.truth = self.known(st, {})
        self.facts = set()
        self.reps = []
        self.seq = []           # calls and loops in order
        self.log = []           # calls in order: (name, args, line), depth 0
        self.out = []           # what is written
        self.scope = {'calls': {}, 'bound': {}, 'cons': st.cons}
        self.implied = []
        self.feasible = self.back(st.events, self.truth, self.implied)
        self.walk(st.events, self, self.scope, st, self.truth, None, 0)
        self.conds(self.facts, st, None, self.scope)
        for c, b in self.implied:
            self.fact(self.facts, c, b, self.scope)
        self.conds_more(self.facts, self.truth, self.scope)
        self.writes(self.facts, st, None, self.scope)
        self.called(self)

    # -- truth of carried flags -----------------------------------------------------
    def known(self, st, more):
        d = dict(more)
        for k, b in st.cons.items():
            if k[0] == 'nz':
                d[k[1]] = b
            elif k[0] == 'eq' and ZERO in k[1:]:
                d[k[1] if k[2] == ZERO else k[2]] = not b
        return d

    def bool(self, t, truth):
        if t is None:
            return None
        if t[0] == 'int':
            return t[1] != 0
        return truth.get(t)

    def latched(self, rep, v, pol):
        """Whether a flag that ends as pol was so all along."""
        h = rep.init[v][0]
        for p in rep.paths:
            end = self.ev.end(p, rep.init[v][3])
            tp = self.known(p, {})
            t = self.bool(end, tp)
            if t is (not pol) or end == h or tp.get(h) is pol:
                continue
            inner = [r for r in p.events if isinstance(r, Rep) and v in r.init and r.init[v][2] == end]
            if end is not None and end[0] == 'any' and inner:
                r = inner[-1]
                if self.latched(r, v, pol) and (r.init[v][1] == h or self.bool(r.init[v][1], tp) is (not pol)):
                    continue
            return False
        return True

    def needs(self, rep, truth):
        """Carried flags and what they have to be after the loop."""
        out = []
        for v, (h, i, q, key) in rep.init.items():
            if h[0] != 'any':
                continue
            pol = truth.get(h) if rep.partial else truth.get(q)
            if pol is not None and self.latched(rep, v, pol):
                out.append((v, pol))
        return out

    def back(self, events, truth, implied=None):
        """What flags have to be before each loop."""
        for e in reversed(events):
            if isinstance(e, Rep):
                for v, pol in self.needs(e, truth):
                    i = e.init[v][1]
                    b = self.bool(i, truth)
                    if b is (not pol):
                        return False
                    if i is not None and i[0] == 'bool':
                        # the flag starts as the outcome of a test
                        c, b = i[1], i[2] is pol
                        if implied is not None:
                            implied.append((c, b))
                        if c[0] == 'nz':
                            truth[c[1]] = b
                    elif i is not None and i[0] != 'int':
                        truth[i] = pol
        return True

    def surviving(self, rep, truth):
        need = self.needs(rep, truth)
        out = []
        for p in rep.paths:
            more = {}
            ok = True
            tp = self.known(p, {})
            for v, pol in need:
                end = self.ev.end(p, rep.init[v][3])
                t = self.bool(end, tp)
                if t is (not pol) or tp.get(rep.init[v][0]) is (not pol):
                    ok = False
                    break
                if end is not None and t is None:
                    more[end] = pol
                more[rep.init[v][0]] = pol
            if ok:
                tp = self.known(p, more)
                if self.back(p.events, tp):
                    out.append((p, tp))
        whole = not rep.partial
        for s in rep.stop:
            ts = self.known(s, {})
            if rep.n is not None and not any(ts.get(rep.init[v][0]) is (not pol) for v, pol in need):
                whole = False
        return out, whole

    # -- events ------------------------------------------------------------------------
    def walk(self, events, view, scope, st, truth, outer, depth):
        for e in events:
            if isinstance(e, Rep):
                self.rep(e, view, scope, truth, depth)
            elif e[0] == 'call':
                scope['calls'][e[3]] = e
                view.log.append((e[1], tuple(self.text(a, scope) for a in e[2]), e[4][1], e[3]))
                if not isinstance(e[1], str):
                    view.facts.add('call *%s(%s)' % (self.text(e[1][1], scope), ', '.join(view.log[-1][1])))
                view.seq.append('%s(%s)' % (e[1] if isinstance(e[1], str) else '*' + self.text(e[1][1], scope), ', '.join(view.log[-1][1])))

            elif e[0] == 'emit':
                view.out.append((self.text(e[1], scope), ''.join(x if isinstance(x, str) else '{%s}' % self.text(x[2], scope) for x in e[2])))
                if view.seq and isinstance(view.seq[-1], str) and view.seq[-1].startswith('emit '):
                    view.seq[-1] += view.out[-1][1]
                else:
                    view.seq.append('emit ' + view.out[-1][1])
            elif e[0] == 'seen':
                for (b, path), v in e[3]:
                    view.facts.add('%s sees %s%s = %s' % (e[1], self.text(b, scope), self.path(path, lambda y: self.text(y, scope)), self.text(v, scope)))

    def rep(self, r, view, scope, truth, depth):
        subs, whole = self.surviving(r, truth)
        bound = dict(scope['bound'])
        if r.n is not None:
            bound[('each', r.n)] = FORTH(depth)
        R = Round(self.text(r.n, scope) if r.n is not None else None, r.dir, whole)
        for v, (h, i, q, key) in r.init.items():
            if h[0] == 'any':
                R.init[self.text(h, scope)] = self.text(i, scope)
        stores = {}
        for p, tp in subs:
            sc = {'calls': dict(scope['calls']), 'bound': bound, 'cons': p.cons, 'truth': tp}
            S = Sub()
            self.walk(p.events, S, sc, p, tp, r.head, depth + 1)
            sc['mine'] = sc['calls'].keys() - scope['calls'].keys()
            S.scope = sc
            S.p = p
            S.head = r.head
            self.conds(S.facts, p, r.head, sc)
            self.conds_more(S.facts, tp, sc)
            self.writes(S.facts, p, r.head, sc)
            self.called(S)
            for v, (h, i, q, key) in r.init.items():
                if h[0] == 'any':
                    S.facts.add('next(%s) = %s' % (self.text(h, sc), self.text(self.ev.end(p, r.init[v][3]), sc)))
            for key, x in p.mem.items():
                if r.head.mem.get(key) != x and key[1] and key[1][0][0] == 'i':
                    stores.setdefault((key[0], key[1]), []).append((x, sc))
            R.subs.append(S)
        for p in r.stop:
            sc = {'calls': dict(scope['calls']), 'bound': bound, 'cons': p.cons}
            fs = set()
            self.walk(p.events, Sub(), sc, p, truth, r.head, depth + 1)
            self.conds(fs, p, r.head, sc)
            R.stops.append(fs)
        if R.n is not None:
            bound[('each', r.n)] = IDX[depth]
            if self.oriented(R, depth):
                bound[('mixed', ('each', r.n))] = R.n
            key = (R.n, depth)
            known = scope.setdefault('all', {}).setdefault(key, set())
            R.subs = [S for S in R.subs if not any(negated(f) in known for f in S.facts if '?' not in f)]
            if R.whole and R.subs:
                known |= set.intersection(*[S.facts for S in R.subs])
        for (v, path), xs in stores.items():
            if r.n is None:
                continue
            self.arrays.setdefault(v, []).append((('each', r.n), path, xs, len(subs)))
        view.reps.append(R)
        view.seq.append(R)

    def oriented(self, R, depth):
        """Names the index of a round: one that is only ever used from the
        other end counts the other way."""
        used = set()

        def go(R, f):
            for x in R.subs:
                x.facts = {f(y) for y in x.facts}
                x.log = [(f(n) if isinstance(n, str) else n, tuple(f(a) for a in args), line, res) for n, args, line, res in x.log]
                x.out = [(f(a), f(b)) for a, b in x.out]
                x.seq = [f(y) if isinstance(y, str) else y for y in x.seq]
                for r in x.reps:
                    go(r, f)
            R.stops = [{f(y) for y in x} for x in R.stops]
            R.init = {f(k): f(v) if isinstance(v, str) else v for k, v in R.init.items()}
            if isinstance(R.n, str):
                R.n = f(R.n)

        def look(t):
            used.update(c for c in (FORTH(depth), BACK(depth)) if c in t)
            return t
        n = R.n
        go(R, look)
        i = IDX[depth]
        if used == {BACK(depth)}:
            R.dir = {'up': 'down', 'down': 'up'}.get(R.dir, R.dir)
            go(R, lambda t: t.replace('@' + BACK(depth), '').replace(BACK(depth), i))
        else:
            go(R, lambda t: t.replace('@' + FORTH(depth), '').replace(FORTH(depth), i).replace(BACK(depth), '%s-%s-1' % (n, i)))
        R.n = n
        return len(used) == 2

    def conds(self, out, st, head, scope):
        for k, b in st.cons.items():
            if head is not None and head.cons.get(k) == b:
                continue
            self.fact(out, k, b, scope)

    def conds_more(self, out, truth, scope):
        for t, b in truth.items():
            if t[0] == 'any':
                out.add(('' if b else '!') + self.text(t, scope))

    def called(self, view):
        for name, args, line, res in view.log:
            if isinstance(name, str):
                view.facts.add('call %s(%s)' % (name, ', '.join(a for a in args if a not in self.ctx)))

        for stream in {x for x, _ in view.out}:
            view.facts.add('emit %s "%s"' % (stream, ''.join(y for x, y in view.out if x == stream)))

    def writes(self, out, st, head, scope):
        """What memory other than the function's own variables is set to."""
        for key, x in st.mem.items():
            if key[0][0] == 'var' and not any(p[0] == 'i' for p in key[1]) or x[0] == 'any' and x[1] == 'loop':
                continue
            if head is not None and head.mem.get(key) == x:
                continue
            b = self.text(key[0], scope)
            out.add('%s%s := %s' % (b[1:] if key[0][0] == 'addr' else b, self.path(key[1], lambda y: self.text(y, scope)), self.text(x, scope)))

    def accepts(self, v):
        """Adds that a value is true."""
        if v[0] == 'bool':
            self.fact(self.facts, v[1], v[2], self.scope)
        elif v[0] == 'op' and v[1] == '&&':
            for x in v[2:]:
                self.accepts(x)
        elif v[0] != 'int':
            self.fact(self.facts, ('nz', v), True, self.scope)

    def fact(self, out, k, b, scope):
        if k[0] == 'nz':
            t = self.text(k[1], scope)
            out.add(('' if b else '!') + t)
            out.add('%s %s 0' % (t, '!=' if b else '=='))
            m = re.match(r'(\w+)\((.*)\)$', t)
            if k[1][0] == 'res' and k[1][2] in SYM:
                e = scope['calls'].get(k[1])
                if e is not None:
                    a = [self.text(x, scope) for x in e[2]]
                    a = [x for x in a if x is not None and x not in self.ctx]
                    out.add('%s%s(%s)' % ('' if b else '!', k[1][2], ', '.join(reversed(a))))
        elif k[0] == 'eq':
            a, c = self.text(k[1], scope), self.text(k[2], scope)
            out.add('%s %s %s' % (a, '==' if b else '!=', c))
            out.add('%s %s %s' % (c, '==' if b else '!=', a))
        elif k[0] == 'lt':
            a, c = self.text(k[1], scope), self.text(k[2], scope)
            out.add('%s < %s' % (a, c) if b else '%s >= %s' % (a, c))

    # -- terms as text -------------------------------------------------------------------
    def text(self, t, scope, deep=0):
        if deep > 40:
            return '...'
        T = lambda x: self.text(x, scope, deep + 1)
        if t is None:
            return 'none'
        k = t[0]
        if k == 'int':
            return str(t[1])
        if k == 'sym':
            return t[1]
        if k == 'gl':
            return t[1]
        if k == 'str':
            return '"%s"' % t[1]
        if k == 'res':
            if t in self.arrays:
                r = self.element(('ld', t, (('i', ('all',)),)), scope, deep)
                if r is not None:
                    return '[%s]' % r
            e = scope['calls'].get(t)
            if e is None:
                return '%s(?)' % t[2] if isinstance(t[2], str) else '(?)'
            s = self.app(e[1], e[2], T)
            if isinstance(t[1], tuple) and t[1][0] == 'at' and t[1][2] != ('all',) and isinstance(e[1], str) and re.search('New|Alloc', e[1]) and not any(self.has(x, t[1][2], scope['calls']) for x in e[2]):
                s += '@' + T(t[1][2])       # that of another round
            return s
        if k == 'out':
            return self.app('out:%s' % t[1], t[2], T)
        if k == 'each':
            b = scope['bound'].get(t)
            return b if b is not None else 'e{%s}' % T(t[1])
        if k == 'any':
            return '?' + base(t[1]) if isinstance(t[1], str) else '?'
        if k == 'lin':
            # the other direction over the same range
            m = dict(t[2])
            for x, c in m.items():
                if x[0] == 'each' and c == -1 and add(t, x) == add(x[1], ('int', 1), -1):
                    b = T(x)
                    if len(b) == 1 and ord(b) >= 0xe000:
                        return chr(ord(b) + 1)
                    n = scope['bound'].get(('mixed', x))
                    return b if n is None else '%s-%s-1' % (n, b)
            s = []
            for x, c in sorted(m.items(), key=lambda y: (-y[1], repr(y[0]))):
                s.append('%s%s' % ('' if c == 1 else '-' if c == -1 else '%d*' % c, T(x)))
            if t[1]:
                s.append(str(t[1]))
            return '+'.join(s).replace('+-', '-')
        if k == 'undef':
            r = self.element(t, scope, deep)
            if r is not None:
                return r
            return base(t[1]) + self.path(t[2], T)
        if k in ('ld', 'proj'):
            if k == 'ld' and t[1] in self.arrays:
                r = self.element(t, scope, deep)
                if r is not None:
                    return r
            b = T(t[1])
            if t[1][0] == 'addr':
                b = b[1:]
            return b + self.path(t[2], T)
        if k == 'padd':
            return '%s[%s]' % (T(t[1]), T(t[2]))
        if k == 'addr' and t[2] and t[2][-1][0] == 'i' and t[1] in self.arrays and (t[2][-1][1] == ZERO or "('each'," in repr(t[2][-1][1])):
            at = ('all',) if t[2][-1][1] == ZERO else t[2][-1][1]
            r = self.element(('undef', t[1][1], t[2][:-1] + (('i', at),)) if t[1][0] == 'var' else ('ld', t[1], t[2][:-1] + (('i', at),)), scope, deep)
            if r is not None:
                return '[%s]' % r if at == ('all',) else '&' + r
        if k == 'all':
            return '*'
        if k == 'addr':
            return '&%s%s' % (base(t[1][1]) if t[1][0] == 'var' else T(t[1]), self.path(t[2], T))
        if k == 'var':
            return base(t[1])
        if k in ('ref', 'agg', 'arr'):
            return '{%s}' % ', '.join('%s=%s' % (self.path(p, T), T(v)) for p, v in t[1]) if isinstance(t[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in t[1]) else '{..}'
        if k == 'op':
            return '(%s)' % (' %s ' % t[1]).join(T(x) if isinstance(x, tuple) else str(x) for x in t[2:])
        if k == 'void':
            return 'void'
        return '%s[%s]' % (k, ','.join(T(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t[1:]))

    def app(self, name, args, T):
        if not isinstance(name, str):
            name = 'call[%s]' % T(name[1])
        a = [T(x) for x in args]
        a = [x for x in a if x not in self.ctx]
        if name in SAME and len(a) == 1:
            return a[0]
        return '%s(%s)' % (name, ', '.join(a))

    def path(self, path, T):
        s = ''
        for x in path:
            if x[0] == 'f':
                s += '.' + x[1].split('.')[-1]
            elif x[0] == 'i':
                s += '[%s]' % T(x[1])
            else:
                s += '.%s' % (x[1:],)
        return s

    def put(self, v, each, at, scope, outer=()):
        """A value of the generic round as of another one."""
        if at == each:
            return v
        # calls made in the round are made with what the other round has
        m = {each: at}
        calls = scope['calls']

        def go(t, deep=0):
            if t in m:
                return m[t]
            if not isinstance(t, tuple) or not t or deep > 30:
                return t
            if t[0] == 'res' and t in calls:
                e = calls[t]
                if any(terms.mentions(x, {each}) or self.has(x, each, calls) for x in e[2]) or isinstance(e[1], str) and re.search('New|Alloc', e[1]) and t not in outer:
                    n = ('res', ('at', t[1], at), t[2])
                    if n not in calls:
                        calls[n] = e
                        calls[n] = (e[0], e[1], tuple(go(x, deep + 1) for x in e[2]), n, e[4])
                    return n
                return t
            r = tuple(go(x, deep + 1) if isinstance(x, tuple) else x for x in t)
            if r != t and r[0] == 'lin':
                acc = ('int', r[1])
                for x, k in r[2]:
                    acc = add(acc, terms.mul(('int', k), x))
                return acc
            return r
        return go(v)

    def has(self, t, each, calls, deep=0):
        if t == each:
            return True
        if not isinstance(t, tuple) or deep > 30:
            return False
        if t and t[0] == 'res' and t in calls:
            return any(self.has(x, each, calls, deep + 1) for x in calls[t][2])
        return any(self.has(x, each, calls, deep + 1) for x in t if isinstance(x, tuple))

    def element(self, t, scope, deep):
        """What was stored in an element of a local array."""
        idx = t[2][0] if t[2] else None
        if idx is None or idx[0] != 'i':
            return None
        res = []
        key = ('var', t[1]) if t[0] == 'undef' else t[1]
        stores = self.arrays.get(key, ())
        # what is stored was worked out from what was there before
        upto = scope.get('before', {}).get(key, len(stores))
        for nth in reversed(range(upto)):
            each, path, xs, n = stores[nth]
            if path[1:] != t[2][1:1 + len(path) - 1]:
                if t[2][1:] == path[1:1 + len(t[2]) - 1]:
                    return None
                continue
            # index of the store as a function of the round
            d = add(path[0][1], each, -1)
            e = add(path[0][1], each)
            if not terms.mentions(d, {each}):
                at = add(idx[1], d, -1)
            elif not terms.mentions(e, {each}):
                at = add(e, idx[1], -1)
            else:
                continue
            rest = t[2][len(path):]
            for x, sc in xs:
                if at == each and any(scope.get('cons', {}).get(k2) is (not b2) for k2, b2 in sc['cons'].items()):
                    continue        # not what this round has stored
                c = {'calls': {**scope['calls'], **sc['calls']}, 'bound': scope['bound'], 'cons': scope.get('cons', {}), 'before': dict(scope.get('before', {}), **{})}
                c['before'][key] = nth
                v = x
                s = self.text(self.put(v, each, at, c, scope['calls'].keys() - sc['mine']), c, deep + 1) if v[0] != 'agg' else None
                if v[0] == 'agg':
                    best = [y for p, y in v[1] if p == rest]
                    if not best:
                        continue
                    s = self.text(self.put(best[0], each, at, c, scope['calls'].keys() - sc['mine']), c, deep + 1)
                else:
                    s += self.path(rest, lambda y: self.text(y, scope, deep + 1))
                if s not in res:
                    res.append(s)
            if len(xs) >= n:
                break
        if not res:
            return None
        return res[0] if len(res) == 1 else 'alt{%s}' % ' / '.join(sorted(res))


def negated(f):
    if ' == ' in f:
        return f.replace(' == ', ' != ', 1)
    if ' != ' in f:
        return f.replace(' != ', ' == ', 1)
    if ' >= ' in f:
        return f.replace(' >= ', ' < ', 1)
    if ' < ' in f:
        return f.replace(' < ', ' >= ', 1)
    return f[1:] if f.startswith('!') else '!' + f


class Round(object):
    def __init__(self, n, dir, whole):
        self.n = n; self.dir = dir; self.whole = whole
        self.subs = []
        self.init = {}
        self.stops = []         # what holds when its condition ends it


class Sub(object):
    def __init__(self):
        self.facts = set(); self.reps = []; self.log = []; self.out = []; self.seq = []


def dump(w, out, ind='', deep=True):
    for f in sorted(w.facts):
        if f.endswith(' != 0') or f.endswith(' == 0') or re.match(r'\d+ [!=]= ', f):
            continue
        if re.match('!?(%s)' % '|'.join(SYM), f):
            m = re.match(r'!?\w+\((.*), (.*)\)$', f)
            if m and m.group(1) > m.group(2):
                continue
        if ':=' in f or f.startswith('call '):
            if not deep:
                continue
        out.append(ind + f)
    for R in w.reps:
        out.append('%sLOOP %s %s%s  %s' % (ind, R.n, R.dir, '' if R.whole else ' (not all)', R.init or ''))
        for f in R.stops:
            out.append(ind + '  ends: ' + ' & '.join(sorted(f)))
        for i, s in enumerate(R.subs):
            out.append(ind + '  round %d' % i)
            dump(s, out, ind + '    ')
