"""Vectors always have room for one more.

The functions that make a vector one element longer are evaluated on three
kinds of lengths - none, a power of two, and any other - with sizes as
polynomials in the length and the size of an element; and vectors start out
with room for one element.
"""
import re
import fe, extent
from fe import walk, callee

GROW = (('lib/vector.c', 'FbleExtendVectorRaw', {'FbleReAllocRaw': 1, 'FbleAllocRaw': 0, 'realloc': 1, 'malloc': 0}),
        ('fbld/vector.c', 'FbldExtendVectorRaw', {'FbldReAllocRaw': 1, 'realloc': 1, 'malloc': 0}))
CLASSES = ('zero', 'power', 'other')
MANY = 1 << 40


class Unknown(Exception):
    pass


class P(object):
    """A polynomial in the number of elements s and the size of one, e."""

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}

    def const(self):
        return self.m.get((0, 0), 0) if not [k for k in self.m if k != (0, 0)] else None

    def lin(self):
        """(a, b) of a*s + b, or None"""
        return (self.m.get((1, 0), 0), self.m.get((0, 0), 0)) if not [k for k in self.m if k not in ((0, 0), (1, 0))] else None

    def per(self):
        """(a, b) of (a*s + b)*e, or None"""
        return (self.m.get((1, 1), 0), self.m.get((0, 1), 0)) if not [k for k in self.m if k not in ((0, 1), (1, 1))] else None

    def add(self, o, f=1):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + f * v
        return P(m)

    def mul(self, o):
        m = {}
        for (i, j), v in self.m.items():
            for (k, l), w in o.m.items():
                m[(i + k, j + l)] = m.get((i + k, j + l), 0) + v * w
        return P(m)

    def __eq__(self, o):
        return isinstance(o, P) and self.m == o.m

    def __hash__(self):
        return hash(tuple(sorted(self.m.items())))


def num(n):
    return P({(0, 0): n})


S, E = P({(1, 0): 1}), P({(0, 1): 1})


class Run(object):
    """What is asked for when a vector with so many elements is made longer:
    none, a power of two of them, or any other number."""

    def __init__(self, f, allocs, tu, cls):
        self.f = f; self.allocs = allocs; self.tu = tu; self.cls = cls; self.steps = 0
        p = [x[2] for x in f.params]
        if len(p) != 3:
            raise Unknown()
        self.elem, self.size, self.xs = p
        self.lo, self.hi = {'zero': (0, 0), 'power': (1, MANY), 'other': (3, MANY)}[cls]

    def go(self):
        """-> [(room asked for or None, length afterwards)]"""
        env = {self.elem: E, '*size': num(0) if self.cls == 'zero' else S, 'room': None}
        out = []
        for k, e in self.stmt(self.f.body, env):
            out.append((e['room'], e['*size']))
        return out

    def stmt(self, n, env):
        self.steps += 1
        if self.steps > 2000:
            raise Unknown()
        k = n.k if n is not None else None
        if n is None or k == 'NullStmt':
            return [('fall', env)]
        if k == 'CompoundStmt':
            cur = [env]; done = []
            for c in n.c:
                nxt = []
                for e in cur:
                    for kk, e2 in self.stmt(c, e):
                        (nxt if kk == 'fall' else done).append(e2 if kk == 'fall' else (kk, e2))
                cur = nxt
            return done + [('fall', e) for e in cur]
        if k == 'DeclStmt':
            cur = [env]
            for d in n.c:
                if d.c and d.c[-1] is not None:
                    nxt = []
                    for e in cur:
                        for v, e2 in self.ev(d.c[-1], e):
                            e2 = dict(e2); e2[d.id] = v
                            nxt.append(e2)
                    cur = nxt
            return [('fall', e) for e in cur]
        if k == 'IfStmt':
            out = []
            for c, e in self.ev(n.c[0], env):
                t = self.truth(c)
                if t is not False:
                    out += self.stmt(n.c[1], dict(e))
                if t is not True:
                    out += self.stmt(n.c[2] if len(n.c) > 2 else None, dict(e))
            return out
        if k == 'ReturnStmt':
            return [('return', env)]
        if k.endswith('Stmt'):
            raise Unknown()
        return [('fall', e) for v, e in self.ev(n, env)]

    def range(self, v):
        """Least and most of a*s + b."""
        if isinstance(v, bool):
            return (int(v), int(v))
        if v == 'either':
            return (0, 1)
        l = v.lin()
        if l is None:
            raise Unknown()
        a, b = l
        xs = (a * self.lo + b, a * self.hi + b)
        return min(xs), max(xs)

    def truth(self, v):
        if v in ('either', 'some'):
            return None
        if v == 'nonzero':
            return True
        if isinstance(v, bool):
            return v
        lo, hi = self.range(v)
        return True if lo > 0 or hi < 0 else False if lo == hi == 0 else None

    def key(self, n):
        n = extent.strip(n)
        if n.k == 'DeclRefExpr':
            return n.ref
        if n.k == 'UnaryOperator' and n.op == '*' or n.k == 'ArraySubscriptExpr':
            b = extent.strip(n.c[0])
            if b.k == 'DeclRefExpr' and b.ref == self.size:
                return '*size'
            if b.k == 'DeclRefExpr' and b.ref == self.xs:
                return '*xs'
        raise Unknown()

    def set(self, key, rs):
        out = []
        for v, e in rs:
            e = dict(e); e[key] = v
            out.append((v, e))
        return out

    def ev(self, n, env):
        """-> [(value, env)]"""
        self.steps += 1
        if self.steps > 2000:
            raise Unknown()
        k = n.k
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
            return self.ev(n.c[0], env)
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(num(int(n.val)), env)]
        if k == 'DeclRefExpr' or k == 'ArraySubscriptExpr' or k == 'UnaryOperator' and n.op == '*':
            key = self.key(n)
            if key not in env and key != '*xs' and key != self.xs:
                raise Unknown()
            return [(env.get(key, 'nonzero'), env)]
        if k == 'UnaryOperator':
            if n.op in ('++', '--'):
                key = self.key(n.c[0])
                o = env[key]
                if not isinstance(o, P):
                    raise Unknown()
                v = o.add(num(1 if n.op == '++' else -1))
                e = dict(env); e[key] = v
                return [(o if n.val else v, e)]
            if n.op == '!':
                out = []
                for v, e in self.ev(n.c[0], env):
                    t = self.truth(v)
                    out.append(('either' if t is None else not t, e))
                return out
            raise Unknown()
        if k == 'ConditionalOperator':
            out = []
            for c, e in self.ev(n.c[0], env):
                t = self.truth(c)
                out += (self.ev(n.c[1], e) if t is not False else []) + (self.ev(n.c[2], e) if t is not True else [])
            return out
        if k == 'BinaryOperator' and n.op == '=':
            return self.set(self.key(n.c[0]), self.ev(n.c[1], env))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.op.rstrip('=') if k == 'CompoundAssignOperator' else n.op
            out = []
            for a, e in self.ev(n.c[0], env):
                if op in ('&&', '||'):
                    t = self.truth(a)
                    if t is not None and t == (op == '||'):
                        out.append((t, e))
                        continue
                    for b, e2 in self.ev(n.c[1], e):
                        u = self.truth(b)
                        out.append((u if t is not None else u if u == (op == '||') else 'either', e2) if (u is not None) else ('either', e2))
                    continue
                for b, e2 in self.ev(n.c[1], e):
                    out.append((self.op(op, a, b), e2))
            return self.set(self.key(n.c[0]), out) if k == 'CompoundAssignOperator' else out
        if k == 'CallExpr':
            name = callee(n)
            if name in self.allocs:
                out = []
                for v, e in self.ev(n.c[1 + self.allocs[name]], env):
                    e = dict(e); e['room'] = v
                    out.append(('nonzero', e))
                return out
            g = self.tu.functions.get(name)
            if g is not None and g.body is not None and len(g.body.c) == 1 and g.body.c[0].k == 'ReturnStmt':
                cur = [env]
                for p, a in zip(g.params, n.c[1:]):
                    cur = [dict(e2, **{p[2]: v}) for e in cur for v, e2 in self.ev(a, e)]
                return [r for e in cur for r in self.ev(g.body.c[0].c[0], e)]
        raise Unknown()

    def op(self, op, a, b):
        if op == ',':
            return b
        a = num(int(a)) if isinstance(a, bool) else a
        b = num(int(b)) if isinstance(b, bool) else b
        if not isinstance(a, P) or not isinstance(b, P):
            if 'some' in (a, b) and op in ('==', '!='):
                return 'either'
            if 'nonzero' in (a, b) and op in ('==', '!='):
                o = b if a == 'nonzero' else a
                if isinstance(o, P) and o.const() == 0:
                    return op == '!='
            raise Unknown()
        if op == '+':
            return a.add(b)
        if op == '-':
            return a.add(b, -1)
        if op == '*':
            return a.mul(b)
        if op == '<<' and b.const() is not None and b.const() < 32:
            return a.mul(num(1 << b.const()))
        x, y = a.const(), b.const()
        if op == '&':
            if x is not None and y is not None:
                return num(x & y)
            if S in (a, b) and S.add(num(-1)) in (a, b):
                # no bit is in both s and s - 1 just when s is a power of two
                return num(0) if self.cls == 'power' else 'nonzero'
            if S in (a, b) and S.add(num(1)) in (a, b):
                return 'some'
            raise Unknown()
        if op in ('==', '!=', '<', '<=', '>', '>='):
            lo, hi = self.range(a.add(b, -1))
            always = {'==': lo == hi == 0, '!=': lo > 0 or hi < 0, '<': hi < 0, '<=': hi <= 0, '>': lo > 0, '>=': lo >= 0}[op]
            never = {'==': lo > 0 or hi < 0, '!=': lo == hi == 0, '<': lo >= 0, '<=': lo > 0, '>': hi <= 0, '>=': hi < 0}[op]
            return True if always else False if never else 'either'
        raise Unknown()


def grow(tus):
    res = []
    for rel, name, allocs in GROW:
        tu = tus.get(rel)
        f = tu.functions.get(name) if tu else None
        if f is None or f.body is None:
            continue
        r = dict(rel=rel, func=name, status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 0})
        res.append(r)

        def bad(msg):
            r['violations'].append({'rule': 'size', 'file': f.file, 'line': f.body.line, 'function': name, 'root': name, 'path': '', 'msg': msg})
        try:
            ways = {c: Run(f, allocs, tu, c).go() for c in CLASSES}
            rooms = {}
            for c, ws in ways.items():
                for room, size in ws:
                    r['stats']['obligations'] += 1
                    if size != (num(1) if c == 'zero' else S.add(num(1))):
                        bad('a vector made longer is not taken to have one element more')
                    if room is not None and room.per() is None:
                        # not so many times the size of an element
                        if room.lin() is not None or [k for k in room.m if k[0] > 1 or k[1] > 1]:
                            bad('what is asked for is not a number of elements')
                            continue
                        raise Unknown()
                    rooms.setdefault(c, []).append(room.per() if room is not None else None)
            if not r['violations']:
                lo = {'zero': 0, 'power': 1, 'other': 3}
                for c in CLASSES:
                    for ab in rooms[c]:
                        if ab is not None and (ab[0] * lo[c] + ab[1] < lo[c] + 1 or ab[0] < 1 and c != 'zero'):
                            bad('a vector with %s elements is given less room than one more takes' % {'zero': 'no', 'power': '2^k', 'other': 'so many'}[c])
                always = all(ab is not None for ab in rooms['other'])
                if not always:
                    # what is made when there are 2^k lasts until there are 2^(k+1)
                    if any(ab is None for ab in rooms['power']):
                        bad('a vector with 2^k elements is full, and on some way through no room is made')
                    for ab in rooms['power']:
                        if ab is not None and (ab[0] + ab[1] < 2 or ab[0] < 2):
                            bad('a vector with 2^k elements is given room for fewer than 2^(k+1), and the next is made there')
        except (Unknown, TypeError, KeyError, RecursionError, AttributeError):
            r['status'] = 'not analysed: grows in some other way'
            r['violations'] = []
    return res


def start(tus):
    """Vectors that start with less room than one element."""
    res = []
    for rel, tu in sorted(tus.items()):
        ev = extent.Eval(tu)
        for f in tu.functions.values():
            if f.body is None or not f.file or f.file.startswith('/'):
                continue
            r = dict(rel=rel, func=f.name, status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 0})
            grown = set()
            for n in walk(f.body):
                if n.k == 'CallExpr' and callee(n) in ('FbleExtendVectorRaw', 'FbldExtendVectorRaw'):
                    grown.add(True)
            for n in walk(f.body):
                if n.k != 'BinaryOperator' or n.op != '=':
                    continue
                c = extent.strip(n.c[1])
                t = extent.strip(n.c[0])
                if c.k != 'CallExpr' or callee(c) not in ('FbleAllocRaw', 'FbldAllocRaw', 'malloc') or t.k != 'MemberExpr' or t.name != 'xs':
                    continue
                a = extent.strip(c.c[1])
                try:
                    got = [v for s, v in ev.ev(a, extent.St())]
                except Exception:
                    continue
                z = ev.sizeof(re.sub(r'\*$', '', (t.ty or '').strip()).strip())
                if len(got) != 1 or not isinstance(got[0], extent.Lin) or got[0].const() is None or z is None:
                    continue
                r['stats']['obligations'] += 1
                if got[0].const() < z:
                    r['violations'].append({'rule': 'size', 'file': n.file, 'line': n.line, 'function': f.name, 'root': f.name, 'path': '',
                                            'msg': 'a vector starts with %d bytes, and its elements take %d' % (got[0].const(), z)})
            if r['stats']['obligations']:
                res.append(r)
    return res


def analyse(tus):
    return grow(tus) + start(tus)


if __name__ == '__main__':
    import core
    core.load_all(fe.sources())
    rs = analyse({r: core.tu(r) for r in fe.sources()})
    print(len(rs), sum(r['stats']['obligations'] for r in rs), [r for r in rs if r['status'] != 'ok'])
    for r in rs:
        for v in r['violations']:
            print((v['file'], v['line'], v['function'], v['msg']))
