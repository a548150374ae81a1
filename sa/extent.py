"""Sizes: nothing is written or read beyond the memory it was given.

Each function is followed with its integers as linear expressions over the
lengths of the strings and the counts it is given.  A loop over the characters
of a string or over a range becomes a sum over that string or range, by case,
so that the size a buffer is made with and the text later put into it can be
compared term by term however both are computed.
"""
import re
import fe, terms
from fe import N, walk, callee
from terms import Unsupported

MAXPATHS = 300


class Lin(object):
    __slots__ = ('m', 'k')

    def __init__(self, m=None):
        self.m = {a: c for a, c in (m or {}).items() if c}; self.k = None

    def key(self):
        if self.k is None:
            self.k = tuple(sorted(self.m.items(), key=repr))
        return self.k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.m.get(1, 0) if not [a for a in self.m if a != 1] else None

    def __add__(self, o):
        m = dict(self.m)
        for a, c in o.m.items():
            m[a] = m.get(a, 0) + c
        return Lin(m)

    def __sub__(self, o):
        return self + o.times(-1)

    def times(self, n):
        return Lin({a: c * n for a, c in self.m.items()})

    def has(self, f):
        return any(f(a) for a in atoms(self))

    def __repr__(self):
        return text(self)


def K(n):
    return Lin({1: n})


def A(*a):
    return Lin({tuple(a): 1})


def atoms(l):
    for a in l.m:
        if a == 1:
            continue
        yield a
        if a[0] == 'sum':
            for c, d in a[2]:
                for x in atoms(Lin(dict(d))):
                    yield x


def atext(a):
    if a[0] == 't':
        return a[1]
    if a[0] == '#':
        return '#%d;' % a[1]
    if a[0] == '%':
        return '%%%d;' % a[1]
    if a[0] == 'sum':
        cs = ' '.join('%s%s' % ('[%s] ' % ','.join(('' if p else '!') + t for t, p in sorted(c)) if c else '', text(Lin(dict(d)))) for c, d in a[2])
        if a[1][0] == 'chars' and len(a[2]) == 1 and not a[2][0][0] and dict(a[2][0][1]) == {1: 1}:
            return 'strlen(%s)' % a[1][1]
        return 'sum over %s of (%s)' % (a[1][1] if a[1][0] == 'chars' else 'each of ' + text(Lin(dict(a[1][1]))) if a[1][0] == 'range' else '?', cs)
    return '%s%s' % (a[0], a[1:])


def text(l):
    if isinstance(l, Lin):
        out = []
        for a, c in l.key():
            s = str(c) if a == 1 else atext(a) if c == 1 else '-' + atext(a) if c == -1 else '%d*%s' % (c, atext(a))
            out.append(s)
        out.sort(key=lambda s: (s.lstrip('-').isdigit(), s))
        return ' + '.join(out).replace('+ -', '- ') if out else '0'
    if l[0] == 'x':
        return l[1]
    if l[0] == 'str':
        return l[1] if l[2] == K(0) else '(%s + %s)' % (l[1], text(l[2]))
    if l[0] == 'lit':
        return '"%s"' % l[1]
    if l[0] == 'ptr':
        return 'buf%d' % l[1] if l[2] == K(0) else '(buf%d + %s)' % (l[1], text(l[2]))
    if l[0] == 'addr':
        return '&' + l[1]
    return repr(l)


def close(x, L, d=0):
    """The current round of loop L becomes the d-th enclosing sum."""
    if isinstance(x, str):
        return x.replace('#%d;' % L, '%%%d;' % d)
    if isinstance(x, Lin):
        return Lin({close(a, L, d): c for a, c in x.m.items()})
    if isinstance(x, tuple):
        if x[:1] == ('#',):
            return ('%', d) if x[1] == L else x
        if x[:1] == ('sum',):
            dom = (x[1][0], close(x[1][1], L, d) if x[1][0] == 'chars' else close(Lin(dict(x[1][1])), L, d).key() if x[1][0] == 'range' else x[1][1])
            return ('sum', dom, tuple((frozenset((close(t, L, d + 1), p) for t, p in c), close(Lin(dict(l)), L, d + 1).key()) for c, l in x[2]))
        if x[:1] == ('t',):
            return ('t', close(x[1], L, d), x[2])
    return x


def strlen(t):
    return A('sum', ('chars', t), ((frozenset(), K(1).key()),))


def total(dom, cases):
    """Sum over a domain, by case; what all cases share is taken out."""
    cases = [(c, l) for c, l in cases]
    if not cases:
        return K(0)
    ls = set(l for c, l in cases)
    if len(ls) == 1:
        cases = [(frozenset(), cases[0][1])]
        l = cases[0][1]
        if l.const() is not None:
            return count(dom).times(l.const())
        if dom[0] == 'range':
            k = l.m.get(1, 0)
            rest = l - K(k)
            return count(dom).times(k) + Lin({('sum', dom, ((frozenset(), rest.key()),)): 1})
    return Lin({('sum', dom, tuple(sorted(((c, l.key()) for c, l in cases), key=repr))): 1})


def count(dom):
    if dom[0] == 'chars':
        return strlen(dom[1])
    if dom[0] == 'range':
        return Lin(dict(dom[1]))
    return A('sum', dom, ((frozenset(), K(1).key()),))


class St(object):
    __slots__ = ('env', 'names', 'slen', 'caps', 'conds', 'cons', 'obs')

    def __init__(self):
        self.env = {}; self.names = {}; self.slen = {}; self.caps = {}; self.conds = (); self.cons = (); self.obs = ()

    def copy(self):
        s = St()
        s.env = dict(self.env); s.names = dict(self.names); s.slen = dict(self.slen); s.caps = dict(self.caps)
        s.conds = self.conds; s.cons = self.cons; s.obs = self.obs
        return s

    def data(self):
        return (tuple(sorted(((k, vkey(v)) for k, v in self.env.items()), key=repr)), tuple(sorted(((k, vkey(v)) for k, v in self.slen.items()), key=repr)),
                tuple(sorted(((k, v[0].key()) for k, v in self.caps.items()))), self.obs)


def vkey(v):
    if isinstance(v, Lin):
        return ('lin', v.key())
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return v


def strip(n):
    while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
        n = n.c[0]
    return n


def is_int(ty):
    return bool(re.match(r'^(const )?(unsigned |signed )*(char|short|int|long|long long|size_t|ssize_t|_Bool|bool|unsigned|uint\d+_t|int\d+_t|uintptr_t|intptr_t)( (unsigned|int|long))*$', (ty or '').strip())) or (ty or '').startswith('enum ')


class Parser(object):
    """Expressions as the compiler prints them inside an array type."""

    def __init__(self, s):
        self.t = re.findall(r'->|\+\+|--|<=|>=|==|!=|&&|\|\||\w+|[^\s\w]', s); self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        if self.i >= len(self.t) or x is not None and self.t[self.i] != x:
            raise Unsupported('size expression')
        self.i += 1
        return self.t[self.i - 1]

    def expr(self, p=0):
        a = self.unary()
        while True:
            o = self.peek()
            q = {'*': 3, '/': 3, '%': 3, '+': 2, '-': 2}.get(o)
            if q is None or q <= p:
                return a
            self.take()
            n = N('BinaryOperator'); n.op = o; n.c = [a, self.expr(q)]; a = n

    def unary(self):
        o = self.peek()
        if o in ('*', '&', '-', '!'):
            self.take()
            n = N('UnaryOperator'); n.op = o; n.c = [self.unary()]
            return n
        if o == '(':
            j = self.i
            self.take()
            ty = []
            while self.peek() not in (')', None) and re.match(r'^(\w+|\*)$', self.peek()):
                ty.append(self.take())
            s = ' '.join(ty).replace(' *', '*')
            if self.peek() == ')' and (is_int(s) or s.endswith('*')):
                self.take()
                n = N('CStyleCastExpr'); n.ty = s; n.c = [self.unary()]
                return n
            self.i = j
        return self.post()

    def post(self):
        o = self.take()
        if o == '(':
            a = self.expr(); self.take(')')
        elif re.match(r'^\d+[uUlL]*$', o):
            a = N('IntegerLiteral'); a.val = o.rstrip('uUlL')
        elif o == 'sizeof':
            self.take('(')
            ty = []
            while self.peek() != ')':
                ty.append(self.take())
            self.take(')')
            a = N('UnaryExprOrTypeTraitExpr'); a.name = 'sizeof'; a.x = ' '.join(ty).replace(' *', ' *').replace('* *', '**')
        elif re.match(r'^[A-Za-z_]', o):
            a = N('DeclRefExpr'); a.name = o; a.val = 'byname'
        else:
            raise Unsupported('size expression')
        while True:
            o = self.peek()
            if o in ('->', '.'):
                self.take()
                n = N('MemberExpr'); n.val = o == '->'; n.name = self.take(); n.c = [a]; a = n
            elif o == '[':
                self.take()
                n = N('ArraySubscriptExpr'); n.c = [a, self.expr()]; self.take(']'); a = n
            elif o == '(':
                self.take()
                f = a; f.val = 'FunctionDecl'
                n = N('CallExpr'); n.c = [f]
                while self.peek() != ')':
                    n.c.append(self.expr())
                    if self.peek() == ',':
                        self.take()
                self.take(')'); a = n
            else:
                return a


STRFUNCS = ('strcpy', 'strcat', 'strncpy', 'strncat', 'sprintf', 'snprintf', 'memcpy', 'memmove', 'memset', 'fgets', 'getcwd', 'fread', 'read', 'vsprintf', 'vsnprintf', 'stpcpy', 'mempcpy')
ALLOC = {'FbleAllocRaw': 0, 'FbldAllocRaw': 0, 'malloc': 0, 'alloca': 0, '__builtin_alloca': 0, 'FbleReAllocRaw': 1, 'FbldReAllocRaw': 1, 'realloc': 1}
# Functions that are given a count and an array of so many.
COUNTED = {'FbleNewStructValue': None}
PURE = {'strlen', 'strcmp', 'strncmp', 'isalnum', 'isalpha', 'isdigit', 'isspace', 'isxdigit', 'isupper', 'islower', 'ispunct', 'isprint', 'toupper', 'tolower', 'strchr', 'strrchr', '__ctype_b_loc'}
NORETURN = {'abort', 'exit', '_exit', '__assert_fail', '__builtin_unreachable'}


class Finding(object):
    def __init__(self, func, file, line, what, detail):
        self.func = func; self.file = file; self.line = line; self.what = what; self.detail = detail


class Eval(object):
    def __init__(self, tu, ghosts=None):
        self.tu = tu; self.T = terms.Eval(tu)
        self.uid = 0; self.bounds = {}; self.signed = set(); self.linear = set(); self.free = set()
        self.findings = []; self.checked = set(); self.unknown = set()
        self.loops = []; self.stack = []
        self.ghosts = ghosts or {}
        self.func = None; self.steps = 0

    def atom(self, t, kind='u'):
        if kind in ('u8', 'c'):
            return A('t', t, kind)
        if kind == 's':
            self.signed.add(t)
        return A('t', t, 'i')

    def fresh(self, why='', kind='u'):
        self.uid += 1
        return self.atom('?%d%s' % (self.uid, why), kind)

    def sizeof(self, ty):
        if ty == 'void':
            return 1
        ty = re.sub(r'\bconst\b', '', ty or '').strip()
        ty = re.sub(r'\s+', ' ', ty)
        n = self.T.sizeof(ty)
        if n is None and ty in ('unsigned char', 'signed char', 'uint8_t', 'int8_t'):
            n = 1
        if n is None and (ty.endswith('*') or '(*)' in ty):
            n = 8
        if n is None:
            for c in (self.tu.typedefs.get(ty) or ()):
                n = self.T.sizeof(c) if c != ty else None
                if n is not None:
                    break
        return n

    def elem(self, ty):
        """Size of what a pointer or array type has elements of."""
        ty = re.sub(r'\s*\b(const|restrict)$', '', (ty or '').strip())
        if ty.endswith('*'):
            return self.sizeof(ty[:-1].strip())
        m = re.match(r'^(.*?)\s*\[[^\[\]]*\]$', ty) or re.match(r'^(.*?)\s*\[.*\]$', ty)
        if m:
            return self.sizeof(m.group(1).strip())
        t = self.tu.typedefs.get(ty)
        if t and t[1] != ty:
            return self.elem(t[1])
        return None

    # obligations
    def need(self, st, b, need, line, what):
        """need (bytes from the start) has to fit into buffer b."""
        cap, name, bl, esz = st.caps[b]
        ob = ('fit', cap, need, name, line, what, st.conds, st.cons)
        self.oblige(st, ob)

    def oblige(self, st, ob):
        if self.loops:
            if ob not in st.obs:
                st.obs = st.obs + (ob,)
        else:
            self.judge(ob)

    def judge(self, ob):
        kind, cap, need, name, line, what, conds, cons = ob
        key = (self.func.name, line[0], line[1], name, what)
        if need is None or cap is None:
            self.unknown.add(key)
            return
        given = set(self.names(need)) if what.split()[0] in ('read', 'write') else set()
        r = self.geq0(cap - need, conds, cons)
        if r is False:
            d = self.bounded(cap - need)
            if d is None or all(c > 0 for a, c in d.m.items() if a != 1) and any(a != 1 and not (a[0] == 'sum' and a[1][0] == 'chars') for a in d.m):
                # only if a count given is too small
                r = None
        if r is False and given:
            # the index is stored somewhere, or given: what bounds it is not to be seen here
            d = self.bounded(cap - need)
            if d is None or any(c > 0 for a, c in d.m.items() if a != 1) or any(c < 0 and set(self.names(Lin({a: c}))) & given for a, c in d.m.items() if a != 1):
                r = None
        self.checked.add(key)
        if r is None:
            self.unknown.add(key)
        elif r is False:
            self.findings.append(Finding(self.func.name, line[0], line[1], what, (name, text(need), text(cap))))

    def geq0(self, d, conds, cons, depth=0):
        """True, False, or None where it cannot be told."""
        d = self.bounded(d)
        if d is None:
            return None
        r = self.geq1(d, conds)
        if r is True:
            return True
        # with what is known on the way
        for kind, l in cons:
            l = self.bounded(l)
            if l is None:
                continue
            for c in ((1,) if kind == 'ge' else (1, -1) if kind == 'eq' else ()):
                shared = [a for a in l.m if a != 1 and a in d.m and (d.m[a] > 0) == (l.m[a] * c > 0)]
                for a in shared[:2]:
                    if d.m[a] % l.m[a]:
                        continue
                    q = abs(d.m[a] // l.m[a])
                    d2 = d - l.times(c * q)
                    if self.geq1(d2, conds) is True:
                        return True
                    if depth < 2:
                        if self.geq0(d2, conds, tuple(x for x in cons if x[1] != l), depth + 1) is True:
                            return True
        if r is False:
            mine = set(self.names(d))
            ex = self.example(d, cons)
            if ex is not None:
                cons = ()
            for kind, l in cons:
                if kind != 'ne' and mine & set(self.names(l)) and not self.harmless(l):
                    return None
            for t, p in conds:
                if any(n in t for n in mine if len(n) > 2 or not n.isalnum()):
                    if not self.loose(t) and t not in self.linear:
                        return None
        return r

    def example(self, d, cons):
        """Counts that everything known allows and that are too large."""
        def plain(a):
            return a[0] == 't' and (not a[1].startswith('?') or a[1] in self.free) and a[1] not in self.signed or a[0] == 'sum' and a[1][0] == 'chars' and len(a[2]) == 1 and '?' not in a[1][1]
        vs = [a for a in d.m if a != 1]
        if not all(plain(a) for a in vs):
            return None
        todo = []
        rest = list(cons)
        while True:
            more = [c for c in rest if any(a in vs for a in c[1].m if a != 1)]
            if not more:
                break
            rest = [c for c in rest if c not in more]
            todo += more
            for k, l in more:
                for a in l.m:
                    if a != 1 and a not in vs:
                        if not plain(a):
                            return None
                        vs.append(a)
        import itertools
        big = [a for a in vs if a[0] == 't' and re.match(r'\?\d+cap$', a[1])]
        vs = [a for a in vs if a not in big]
        if len(vs) > 5:
            return None
        for val in itertools.product((0, 1, 2, 7), repeat=len(vs)):
            m = dict(zip(vs, val)); m[1] = 1
            for b in big:
                # no more than it has to be
                m[b] = max([0] + [-(sum(m.get(a, 0) * c for a, c in l.m.items() if a != b) // l.m[b]) for k, l in todo if k == 'ge' and l.m.get(b, 0) > 0])
            if sum(m[a] * c for a, c in d.m.items()) >= 0:
                continue
            for k, l in todo:
                x = sum(m[a] * c for a, c in l.m.items())
                if not (x >= 0 if k == 'ge' else x == 0 if k == 'eq' else x != 0):
                    break
            else:
                return m
        return None

    def harmless(self, l):
        """Something like n > 0 bounds nothing from above."""
        return all(c > 0 for a, c in l.m.items() if a != 1) or l.const() is not None

    def loose(self, t):
        return bool(re.match(r'^(isalnum|isspace|isdigit|isalpha|isprint)\(', t)) or '%' in t or '#' in t

    def names(self, l):
        for a in atoms(l):
            if a[0] == 't':
                yield a[1]
            elif a[0] == 'sum':
                if a[1][0] == 'chars':
                    yield a[1][1]
                elif a[1][0] == 'range':
                    for n in self.names(Lin(dict(a[1][1]))):
                        yield n

    def bounded(self, d):
        for _ in range(12):
            todo = [a for a in d.m if a != 1 and a in self.bounds]
            if not todo:
                return None if any(a != 1 and a[0] == 'it' for a in d.m) else d
            a = todo[-1]
            lo, hi = self.bounds[a]
            c = d.m[a]
            v = lo if c > 0 else hi
            if v is None:
                return None
            d = d - Lin({a: c}) + v.times(c)
        return None

    def geq1(self, d, conds=()):
        if d.const() is not None:
            return d.const() >= 0
        # sums over the same domain, case by case
        doms = {}
        rest = {}
        for a, c in d.m.items():
            if a != 1 and a[0] == 'sum':
                doms.setdefault(a[1], []).append((c, a[2]))
            else:
                rest[a] = c
        unsure = False
        for dom, ss in sorted(doms.items(), key=repr):
            if dom[0] == '?' and any(c < 0 for c, x in ss):
                return None
            if dom[0] == 'range' and any(c < 0 for c, x in ss):
                cnt = Lin(dict(dom[1]))
                va = [a for a in cnt.m if a != 1]
                if len(va) == 1 and rest.get(va[0], 0) > 0 and cnt.m[va[0]] == 1:
                    k = rest[va[0]]
                    rest[va[0]] = 0
                    rest[1] = rest.get(1, 0) - k * cnt.m.get(1, 0)
                    ss = ss + [(k, ((frozenset(), K(1).key()),))]
            combos = [((), K(0))]
            for c, cases in ss:
                nxt = []
                for lits, l in combos:
                    for cs, x in cases:
                        if any((t, not p) in lits for t, p in cs):
                            continue
                        nxt.append((tuple(lits) + tuple(cs), l + Lin(dict(x)).times(c)))
                combos = nxt
                if len(combos) > 4000:
                    return None
            for lits, l in combos:
                r = self.geq1(l)
                if r is False:
                    return False
                if r is None:
                    unsure = True
        if unsure:
            return None
        for a, c in rest.items():
            if a == 1:
                continue
            if c < 0:
                return False if a[0] in ('t', '#', '%') else None
            if a[0] == 't' and (a[2] == 'c' or a[1] in self.signed):
                return None
        # what is left is a constant and terms that are not negative
        return rest.get(1, 0) >= 0 or (None if any(c > 0 for a, c in rest.items() if a != 1) and False else False)

    # states
    def lit(self, st, t, p):
        """Adds a literal; False if it contradicts what is known."""
        if (t, not p) in st.conds:
            return False
        if (t, p) not in st.conds:
            st.conds = st.conds + ((t, p),)
        return True

    def con(self, st, kind, l):
        c = l.const()
        if c is not None:
            return c >= 0 if kind == 'ge' else c == 0 if kind == 'eq' else c != 0
        if kind == 'ne':
            for k2, l2 in st.cons:
                if k2 == 'ge' and l2 == l:
                    return self.con(st, 'ge', l - K(1))
                if k2 == 'ge' and l2 == l.times(-1):
                    return self.con(st, 'ge', l.times(-1) - K(1))
                if k2 == 'eq' and (l2 == l or l2 == l.times(-1)):
                    return False
        for k2, l2 in st.cons:
            if kind == 'ge' and k2 in ('ge', 'eq'):
                x = (l + l2).const()
                if x is not None and x < 0:
                    return False
            if kind == 'eq' and k2 == 'ge':
                for y in (l, l.times(-1)):
                    x = (y + l2).const()
                    if x is not None and x < 0:
                        return False
            if kind == 'eq' and k2 == 'eq':
                for y in (l, l.times(-1)):
                    x = (y + l2).const()
                    if x is not None and x != 0:
                        return False
            if kind == 'eq' and k2 == 'ne' and (l2 == l or l2 == l.times(-1)):
                return False
        if (kind, l) not in st.cons:
            st.cons = st.cons + ((kind, l),)
        return True

    # expressions: -> [(state, value)]
    def many(self, es, st):
        out = [(st, ())]
        for e in es:
            out = [(s2, vs + (v,)) for s, vs in out for s2, v in self.ev(e, s)]
        return out

    def num(self, v, ty=None):
        if isinstance(v, Lin):
            return v
        if v[0] == 'x':
            return self.atom(v[1], 's' if ty is not None and 'unsigned' not in ty and 'size_t' not in ty else 'u')
        return self.atom(text(v), 'u')

    def kindof(self, ty):
        ty = (ty or '').replace('const ', '').strip()
        if ty in ('unsigned char', 'uint8_t'):
            return 'u8'
        if ty in ('char', 'signed char', 'int8_t'):
            return 'c'
        if ty.startswith('unsigned') or ty in ('size_t', 'uint32_t', 'uint64_t', 'uintptr_t', '_Bool', 'bool') or ty.startswith('enum'):
            return 'u'
        return 's'

    def conv(self, v, ty):
        k = self.kindof(ty)
        if isinstance(v, Lin) and k in ('u8', 'c'):
            if v.const() is not None:
                return v
            if len(v.m) == 1:
                (a, c), = v.m.items()
                if c == 1 and a[0] == 't':
                    return self.atom(a[1], k)
            return self.atom(text(v), k)
        return v

    def named(self, st, t, ty):
        """What is stored at a place nothing is known of."""
        if ('cell', t) in st.env:
            return st.env[('cell', t)]
        if is_int(ty):
            return self.atom(t, self.kindof(ty))
        if ty is None:
            return ('x', t)
        if ty.rstrip().endswith('*') or '[' in ty:
            return ('str', t, K(0), self.elem(ty))
        return ('x', t)

    def place(self, e, st):
        """-> [(state, kind, ...)]: ('var', id) | ('mem', text) | ('at', pointer value)"""
        e0 = e
        e = strip(e) if e.k in ('ParenExpr',) else e
        if e.k == 'DeclRefExpr':
            if e.val == 'byname':
                i = st.names.get(e.name)
                return [(st, ('var', i, e.name) if i is not None else ('mem', e.name))]
            if e.ref in st.env or e.ref in st.names.values():
                return [(st, ('var', e.ref, e.name))]
            return [(st, ('mem', e.name))]
        if e.k == 'MemberExpr':
            if e.val:
                out = []
                for s, v in self.ev(e.c[0], st):
                    out.append((s, self.member(s, v, e)))
                return out
            out = []
            for s, p in self.place(e.c[0], st):
                if p[0] == 'var':
                    if (p[1], e.name) in s.env:
                        out.append((s, ('var', (p[1], e.name), p[2] + '.' + e.name)))
                        continue
                    v = s.env.get(p[1])
                    t = text(v) if v is not None and not isinstance(v, Lin) and v[0] in ('x',) else p[2]
                    out.append((s, ('mem', t + '.' + e.name)))
                elif p[0] == 'mem':
                    out.append((s, ('mem', p[1] + '.' + e.name)))
                else:
                    q = p[1]
                    if not isinstance(q, Lin) and q[0] == 'ptr':
                        r = self.tu.rec_by_name.get(re.sub(r'\b(const|struct)\b', '', e.c[0].ty or '').strip())
                        lay = self.T.layout(r) if r is not None else None
                        if lay and e.name in lay[0]:
                            out.append((s, ('at', ('ptr', q[1], q[2] + K(lay[0][e.name]), None))))
                            continue
                    out.append((s, ('mem', self.attext(s, q) + '.' + e.name)))
            return out
        if e.k == 'ArraySubscriptExpr':
            out = []
            for s, (b, i) in self.many(e.c, st):
                if isinstance(b, Lin) and not isinstance(i, Lin):
                    b, i = i, b
                out.append((s, ('at', self.padd(b, self.num(i), 1, True), 'index')))
            return out
        if e.k == 'UnaryOperator' and e.op == '*':
            return [(s, self.pointee(v)) for s, v in self.ev(e.c[0], st)]
        if e.k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.place(e.c[0], st)
        if e.k == 'UnaryOperator' and e.op in ('__extension__',):
            return self.place(e.c[0], st)
        out = []
        for s, v in self.ev(e, st):
            out.append((s, ('mem', text(v))))
        return out

    def pointee(self, v):
        if not isinstance(v, Lin) and v[0] == 'addr':
            return v[2]
        return ('at', v)

    def attext(self, st, v):
        if isinstance(v, Lin):
            return '*' + text(v)
        if v[0] == 'str':
            return '%s[%s]' % (v[1], text(v[2].times(1) if not v[3] or v[3] == 1 else self.div(v[2], v[3])))
        return '*' + text(v)

    def div(self, l, n):
        if all(c % n == 0 for c in l.m.values()):
            return Lin({a: c // n for a, c in l.m.items()})
        return l

    def member(self, st, v, e):
        if not isinstance(v, Lin) and v[0] == 'ptr':
            rec = re.sub(r'\s*\*$', '', re.sub(r'\bconst\b|\bstruct\b', '', e.c[0].ty or '').strip()).strip()
            r = self.tu.rec_by_name.get(rec)
            off = None
            if r is not None:
                lay = self.T.layout(r)
                if lay:
                    off = lay[0].get(e.name)
            if off is not None:
                return ('field', ('ptr', v[1], v[2] + K(off), None), e)
            return ('mem', text(v) + '->' + e.name)
        if not isinstance(v, Lin) and v[0] == 'addr':
            return ('mem', v[1] + '.' + e.name)
        if not isinstance(v, Lin) and v[0] == 'str':
            if v[2] == K(0):
                return ('mem', v[1] + '->' + e.name)
            return ('mem', self.attext(st, v) + '.' + e.name)
        return ('mem', text(v) + '->' + e.name)

    def padd(self, p, n, s=1, sub=False):
        if isinstance(p, Lin):
            return p + n.times(s)
        if p[0] == 'ptr' or p[0] == 'str':
            z = p[3]
            if z is None:
                return ('x', '(%s + %s)' % (text(p), text(n)))
            return (p[0], p[1], p[2] + n.times(s * z), z)
        if p[0] == 'lit':
            return ('x', '(%s + %s)' % (text(p), text(n)))
        if sub:
            return ('str', p[1], n.times(8), 8)
        return ('x', '(%s + %s)' % (text(p), text(n.times(s))))

    def access(self, st, v, size, e, what):
        """A read or write of size bytes where v points."""
        if not isinstance(v, Lin) and v[0] == 'ptr':
            if size is None:
                return
            self.need(st, v[1], v[2] + K(size), (e.file, e.line), what)
            if v[2].const() is None or v[2].const() < 0:
                self.oblige(st, ('fit', v[2], K(0), st.caps[v[1]][1], (e.file, e.line), what + ' below its start', st.conds, st.cons))

    def load(self, st, p, e, ty):
        if p[0] == 'var':
            v = st.env.get(p[1])
            if v is None:
                v = st.env[p[1]] = self.named(st, p[2], ty)
            return v
        if p[0] == 'mem':
            return self.named(st, p[1], ty)
        if p[0] == 'field':
            t = p[2].ty or ''
            if '[' in t:
                return p[1][:3] + (self.elem(t),)
            self.access(st, p[1], self.sizeof(t) if t else None, p[2], 'read')
            return self.named(st, '%s->%s' % (text(p[1]), p[2].name), ty)
        v = p[1]
        if ty and '[' in ty:
            if not isinstance(v, Lin) and v[0] in ('ptr', 'str'):
                return (v[0], v[1], v[2], self.elem(ty))
            return ('x', self.attext(st, v))
        self.access(st, v, self.sizeof(ty) if ty else None, e, 'read')
        if not isinstance(v, Lin) and v[0] == 'ptr':
            sl = st.slen.get(v[1])
            return self.fresh('', self.kindof(ty)) if is_int(ty) else ('x', '?%d' % self.next())
        return self.named(st, self.attext(st, v), ty)

    def next(self):
        self.uid += 1
        return self.uid

    def store(self, st, p, v, e, ty):
        if p[0] == 'var':
            for x in [x for x in st.env if isinstance(x, tuple) and x[0] == p[1]]:
                del st.env[x]
            if p[1] in st.env and not isinstance(st.env[p[1]], Lin) and st.env[p[1]][0] == 'arr':
                return
            st.env[p[1]] = self.conv(v, ty)
            return
        if p[0] == 'mem':
            if ('cell', p[1]) in st.env:
                self.cellset(st, p[1], v)
            return
        if p[0] == 'field':
            self.access(st, p[1], self.sizeof(p[2].ty) if p[2].ty else None, p[2], 'write')
            return
        q = p[1]
        if not isinstance(q, Lin) and q[0] == 'str' and ('cell', self.attext(st, q)) in st.env:
            self.cellset(st, self.attext(st, q), v)
            return
        self.access(st, q, self.sizeof(ty) if ty else None, e, 'write')
        if not isinstance(q, Lin) and q[0] == 'ptr' and ty and self.sizeof(ty) == 1:
            start = st.caps[q[1]][4] if len(st.caps[q[1]]) > 4 else K(0)
            if isinstance(v, Lin) and v.const() == 0:
                st.slen[q[1]] = q[2]
            else:
                sl = st.slen.get(q[1])
                if sl is not None:
                    # a character written over the end moves it
                    x = (q[2] - sl).const()
                    if x is not None and x >= 0:
                        st.slen[q[1]] = None

    def cellset(self, st, t, v):
        o = st.env[('cell', t)]
        if isinstance(o, Lin):
            v = self.num(v)
        elif isinstance(v, Lin) or v[0] != 'ptr':
            # what it is set to is as large as it is said to be
            b = self.next()
            st.caps[b] = (self.fresh('cap', 'u'), t, None, o[3]); st.slen[b] = self.fresh('len', 'u')
            v = ('ptr', b, K(0), o[3])
        st.env[('cell', t)] = v

    def ev(self, e, st):
        self.steps += 1
        if self.steps > 300000:
            raise Unsupported('too long')
        k = e.k
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(st, K(int(e.val)))]
        if k == 'StringLiteral':
            s = lint_string(e)
            return [(st, ('lit', s if s is not None else ''))]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            out = []
            if e.op == 'ArrayToPointerDecay':
                for s, p in self.place(e.c[0], st):
                    if strip(e.c[0]).k == 'StringLiteral':
                        return self.ev(e.c[0], st)
                    if p[0] == 'var':
                        v = s.env.get(p[1])
                        if v is not None and not isinstance(v, Lin) and v[0] == 'arr':
                            out.append((s, ('ptr', v[1], K(0), v[2])))
                            continue
                        out.append((s, ('str', p[2], K(0), self.elem(e.c[0].ty))))
                    elif p[0] == 'field':
                        out.append((s, p[1][:3] + (self.elem(e.c[0].ty),)))
                    elif p[0] == 'mem':
                        out.append((s, self.named(s, p[1], e.c[0].ty)))
                    else:
                        v = p[1]
                        if not isinstance(v, Lin) and v[0] in ('ptr', 'str'):
                            out.append((s, (v[0], v[1], v[2], self.elem(e.c[0].ty))))
                        else:
                            out.append((s, ('x', self.attext(s, v))))
                return out
            for s, v in self.ev(e.c[0], st):
                if not isinstance(v, Lin) and v[0] in ('ptr', 'str') and (e.ty or '').endswith('*'):
                    z = self.elem(e.ty)
                    v = (v[0], v[1], v[2], z if z is not None and e.ty.replace('const ', '') != 'void *' else v[3])
                elif is_int(e.ty) and e.op in ('IntegralCast', None, 'NoOp') or k == 'CStyleCastExpr' and is_int(e.ty):
                    v = self.conv(v, e.ty) if isinstance(v, Lin) else v
                out.append((s, v))
            return out
        if k == 'DeclRefExpr' and e.val == 'EnumConstantDecl':
            n = self.tu.enum_val.get(e.name)
            return [(st, K(n) if isinstance(n, int) else ('x', e.name))]
        if k == 'DeclRefExpr' and e.val == 'FunctionDecl':
            return [(st, ('x', e.name))]
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') or k == 'UnaryOperator' and e.op == '*':
            out = []
            for s, p in self.place(e, st):
                v = self.load(s, p, e, e.ty)
                if not isinstance(v, Lin) and v[0] == 'arr':
                    v = ('ptr', v[1], K(0), v[2])
                out.append((s, v))
            return out
        if k == 'UnaryExprOrTypeTraitExpr':
            if e.x:
                n = self.sizeof(e.x)
            else:
                ty = strip(e.c[0]).ty if e.c else None
                n = self.sizeof(ty) if ty else None
                if e.c and strip(e.c[0]).k == 'DeclRefExpr':
                    v = st.env.get(strip(e.c[0]).ref)
                    if v is not None and not isinstance(v, Lin) and v[0] == 'arr':
                        return [(st, st.caps[v[1]][0])]
            return [(st, K(n) if n is not None else self.atom('sizeof(%s)' % (e.x or ''), 'u'))]
        if k == 'UnaryOperator':
            if e.op == '&':
                out = []
                for s, p in self.place(e.c[0], st):
                    if p[0] == 'at':
                        out.append((s, p[1]))
                    elif p[0] == 'field':
                        out.append((s, p[1]))
                    elif p[0] == 'var':
                        v = s.env.get(p[1])
                        if v is not None and not isinstance(v, Lin) and v[0] == 'arr':
                            out.append((s, ('ptr', v[1], K(0), v[2])))
                        else:
                            out.append((s, ('addr', p[2], p)))
                    else:
                        out.append((s, ('addr', p[1], p)))
                return out
            if e.op in ('++', '--'):
                out = []
                d = 1 if e.op == '++' else -1
                for s, p in self.place(e.c[0], st):
                    v = self.load(s, p, e, e.c[0].ty)
                    n = self.padd(v, K(d)) if not isinstance(v, Lin) else v + K(d)
                    self.store(s, p, n, e, e.c[0].ty if not is_int(e.c[0].ty) else None)
                    out.append((s, v if e.val else n))
                return out
            if e.op == '-':
                return [(s, self.num(v).times(-1)) for s, v in self.ev(e.c[0], st)]
            if e.op == '!':
                return [(s, K(0 if b else 1)) for s, b in self.cond(e.c[0], st)]
            if e.op in ('__extension__', '+'):
                return self.ev(e.c[0], st)
            return [(s, self.atom('%s(%s)' % (e.op, text(v)), self.kindof(e.ty))) for s, v in self.ev(e.c[0], st)]
        if k == 'ConditionalOperator':
            out = []
            for s, b in self.cond(e.c[0], st):
                out += self.ev(e.c[1] if b else e.c[2], s)
            return self.same(out)
        if k == 'BinaryOperator':
            op = e.op
            if op == ',':
                return [x for s, v in self.ev(e.c[0], st) for x in self.ev(e.c[1], s)]
            if op == '=':
                out = []
                for s, v in self.ev(e.c[1], st):
                    for s2, p in self.place(e.c[0], s):
                        self.store(s2, p, v, e.c[0], e.c[0].ty)
                        out.append((s2, v))
                return out
            if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                return [(s, K(1 if b else 0)) for s, b in self.cond(e, st)]
            return [(s, self.binop(op, a, b, e)) for s, (a, b) in self.many(e.c, st)]
        if k == 'CompoundAssignOperator':
            out = []
            for s, v in self.ev(e.c[1], st):
                for s2, p in self.place(e.c[0], s):
                    o = self.load(s2, p, e, e.c[0].ty)
                    n = self.binop(e.op[:-1], o, v, e)
                    self.store(s2, p, n, e.c[0], e.c[0].ty if not is_int(e.c[0].ty) else None)
                    out.append((s2, n))
            return out
        if k == 'CallExpr':
            return self.call(e, st)
        if k == 'StmtExpr':
            body = e.c[0]
            out = []
            r = self.run_seq(list(body.c[:-1]), [st])
            if r.ret or r.brk or r.cont:
                raise Unsupported('statement expression')
            last = body.c[-1]
            for s in r.fall:
                if last.k.endswith('Stmt'):
                    r2 = self.run(last, s)
                    out += [(x, K(0)) for x in r2.fall]
                else:
                    out += self.ev(last, s)
            return out
        if k == 'InitListExpr' or k == 'CompoundLiteralExpr':
            st2 = [st]
            for c in e.c:
                if c is not None and c.k != 'ImplicitValueInitExpr':
                    st2 = [s2 for s in st2 for s2, v in self.ev(c, s)]
            return [(s, ('x', '?%d' % self.next())) for s in st2]
        if k in ('ImplicitValueInitExpr', 'OffsetOfExpr', 'FloatingLiteral', 'PredefinedExpr', 'VAArgExpr'):
            return [(st, self.fresh())]
        raise Unsupported('expression ' + k)

    def same(self, out):
        """Ways that differ in nothing but what was asked become one."""
        return out

    def binop(self, op, a, b, e):
        if op == '+':
            if not isinstance(a, Lin) and a[0] != 'x':
                return self.padd(a, self.num(b))
            if not isinstance(b, Lin) and b[0] != 'x':
                return self.padd(b, self.num(a))
            return self.num(a) + self.num(b)
        if op == '-':
            if not isinstance(a, Lin) and a[0] in ('ptr', 'str'):
                if not isinstance(b, Lin) and b[0] == a[0] and b[1] == a[1] and a[3]:
                    return self.div(a[2] - b[2], a[3])
                if isinstance(b, Lin):
                    return self.padd(a, b, -1)
            return self.num(a) - self.num(b)
        if op == '*':
            x, y = self.num(a), self.num(b)
            if x.const() is not None:
                return y.times(x.const())
            if y.const() is not None:
                return x.times(y.const())
        x, y = self.num(a), self.num(b)
        if x.const() is not None and y.const() is not None and y.const() != 0 and op in ('/', '%', '<<', '>>', '&', '|'):
            c, d = x.const(), y.const()
            return K({'/': c // d, '%': c % d, '<<': c << d if d < 64 else 0, '>>': c >> d, '&': c & d, '|': c | d}[op])
        if op == '&' and y.const() is not None and 0 <= y.const() <= 255:
            return self.atom(text(x) if y.const() == 255 else '(%s & %d)' % (text(x), y.const()), 'u8')
        if op == '%' and y.const() is not None and y.const() > 0:
            r = self.atom('(%s %% %d)' % (text(x), y.const()), 'u')
            return r
        return self.atom('(%s %s %s)' % (text(x), op, text(y)), self.kindof(e.ty) if e.ty else 'u')

    # conditions: -> [(state, bool)]
    def cond(self, e, st):
        e0 = e
        while e.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
            e = e.c[0]
        if e.k == 'UnaryOperator' and e.op == '!':
            return [(s, not b) for s, b in self.cond(e.c[0], st)]
        if e.k == 'BinaryOperator' and e.op in ('&&', '||'):
            out = []
            for s, b in self.cond(e.c[0], st):
                if b == (e.op == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(e.c[1], s)
            return out
        if e.k == 'BinaryOperator' and e.op in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            for s, (a, b) in self.many(e.c, st):
                out += self.compare(e.op, a, b, s, e)
            return out
        if e.k == 'BinaryOperator' and e.op == ',':
            return [x for s, v in self.ev(e.c[0], st) for x in self.cond(e.c[1], s)]
        if e.k == 'UnaryOperator' and e.op == '__extension__':
            return self.cond(e.c[0], st)
        if e.k == 'ConditionalOperator':
            return [x for s, b in self.cond(e.c[0], st) for x in self.cond(e.c[1] if b else e.c[2], s)]
        out = []
        for s, v in self.ev(e, st):
            out += self.compare('!=', v, K(0), s, e)
        return out

    def diff(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return a - b
        if not isinstance(a, Lin) and not isinstance(b, Lin) and a[0] == b[0] and a[0] in ('ptr', 'str') and a[1] == b[1] and a[3]:
            return self.div(a[2] - b[2], a[3])
        return None

    def compare(self, op, a, b, st, e):
        d = self.diff(a, b)
        if d is None:
            if isinstance(a, Lin) and isinstance(b, tuple) and b[0] == 'x' or isinstance(b, Lin) and isinstance(a, tuple) and a[0] == 'x':
                x, y = (a, b) if isinstance(a, Lin) else (b, a)
                if x.const() is None:
                    d = self.num(a) - self.num(b)
        if d is None:
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if not isinstance(x, Lin) and x[0] in ('ptr', 'lit', 'addr') and isinstance(y, Lin) and y.const() == 0:
                        return [(st, op == '!=')]
                ta, tb = text(a), text(b)
                if tb == '0' or ta == '0':
                    t, pol = (ta if tb == '0' else tb), op == '!='
                else:
                    t, pol = '%s == %s' % tuple(sorted((ta, tb))), op == '=='
            else:
                if op in ('>', '>='):
                    a, b, op = b, a, {'>': '<', '>=': '<='}[op]
                if op == '<':
                    t, pol = '%s < %s' % (text(a), text(b)), True
                else:
                    t, pol = '%s < %s' % (text(b), text(a)), False
            return self.both(st, t, pol)
        if d.const() is not None:
            c = d.const()
            return [(st, {'==': c == 0, '!=': c != 0, '<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[op])]
        out = []
        for want in (True, False):
            s = st.copy()
            o = op if want else {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            if o in ('>', '>='):
                ok = self.con(s, 'ge', d - K(1) if o == '>' else d)
            elif o in ('<', '<='):
                ok = self.con(s, 'ge', d.times(-1) - K(1) if o == '<' else d.times(-1))
            else:
                ok = self.con(s, 'eq' if o == '==' else 'ne', d)
            if not ok:
                continue
            # unsigned things are not negative
            vs = [x for x in d.m if x != 1]
            if len(vs) == 1 and (vs[0][0] == 't' and (vs[0][2] == 'u8' or vs[0][2] == 'i' and vs[0][1] not in self.signed) or vs[0][0] == '#') and not self.possible(o, d.m[vs[0]], d.m.get(1, 0)):
                continue
            if op in ('==', '!='):
                t = self.nztext(d)
                self.linear.add(t)
                if not self.lit(s, t, o == '!='):
                    continue
            else:
                # a < 0 and so on: one literal for both outcomes
                ge = d if op in ('>=', '<') else d.times(-1)
                self.linear.add('%s >= 0' % text(ge))
                if not self.lit(s, '%s >= 0' % text(ge), (op in ('>=', '<=')) == want):
                    continue
            out.append((s, want))
        return out

    def nztext(self, d):
        if len(d.m) == 1:
            (a, c), = d.m.items()
            return atext(a)
        k = d.key()
        if k[0][1] < 0 if k[0][0] != 1 else k[-1][1] < 0:
            d = d.times(-1)
        return text(d)

    def possible(self, o, c, k):
        """c*x + k o 0 for some x >= 0"""
        if o == '<':
            return c < 0 or k < 0
        if o == '<=':
            return c < 0 or k <= 0
        if o == '>':
            return c > 0 or k > 0
        if o == '>=':
            return c > 0 or k >= 0
        if o == '==':
            return k == 0 or (-k) % abs(c) == 0 and (-k) // c >= 0
        return True

    def both(self, st, t, pol):
        out = []
        for p in (True, False):
            s = st.copy()
            if self.lit(s, t, p):
                out.append((s, p == pol))
        return out

    # calls
    def strof(self, st, v):
        """Length of a string value."""
        if isinstance(v, Lin):
            return None
        if v[0] == 'lit':
            return K(len(v[1].encode('utf-8', 'replace')))
        if v[0] == 'ptr':
            l = st.slen.get(v[1])
            return None if l is None else l - v[2]
        if v[0] == 'str':
            return strlen(v[1]) - v[2]
        if v[0] == 'x':
            return strlen(v[1])
        return None

    def put(self, st, d, n, e, what, end=True):
        """n characters (and a terminator) are put at d."""
        if not isinstance(d, Lin) and d[0] == 'ptr':
            if n is None:
                self.unknown.add((self.func.name, e.file, e.line, st.caps[d[1]][1], what))
                st.slen[d[1]] = None
                return
            self.need(st, d[1], d[2] + n + K(1 if end else 0), (e.file, e.line), what)
            st.slen[d[1]] = d[2] + n if end else None

    def call(self, e, st):
        name = callee(e)
        out = []
        for s, args in self.many(e.c[1:], st):
            out += self.call1(name, e, s, args)
        return out

    def call1(self, name, e, st, args):
        if name == '__builtin___sprintf_chk':
            name = 'sprintf'; args = (args[0],) + args[3:]; es = [e.c[1]] + list(e.c[4:])
        elif name and name.startswith('__builtin___') and name.endswith('_chk'):
            name = name[len('__builtin___'):-4]; es = list(e.c[1:])
        else:
            es = list(e.c[1:])
        if name and name.startswith('__builtin_') and name[10:] in ('strlen', 'strcpy', 'strcat', 'memcpy', 'memset', 'memmove', 'strncpy', 'alloca'):
            name = name[10:]
        if name in NORETURN:
            return []
        if name == 'strlen':
            l = self.strof(st, args[0])
            return [(st, l if l is not None else self.fresh('strlen'))]
        if name in ('strcpy', 'stpcpy'):
            self.put(st, args[0], self.strof(st, args[1]), e, name)
            return [(st, args[0])]
        if name in ('strcat', 'strncat'):
            a, b = self.strof(st, args[0]), self.strof(st, args[1])
            if name == 'strncat' and b is not None:
                n = self.num(args[2])
                x = (n - b).const()
                b = b if x is not None and x >= 0 else n
            if not isinstance(args[0], Lin) and args[0][0] == 'ptr':
                self.put(st, args[0], None if a is None or b is None else a + b, e, name)
            return [(st, args[0])]
        if name in ('sprintf', 'vsprintf'):
            outs = []
            for s, n in self.printed(st, args, es):
                self.put(s, args[0], n, e, name)
                outs.append((s, n if n is not None else self.fresh()))
            return outs
        if name in ('snprintf', 'vsnprintf', 'fgets', 'getcwd', 'strncpy', 'memcpy', 'memmove', 'mempcpy', 'memset', 'read', 'fread'):
            i = {'snprintf': 1, 'vsnprintf': 1, 'fgets': 1, 'getcwd': 1}.get(name, 2)
            n = self.num(args[i])
            d = args[0]
            if name == 'read':
                d = args[1]
            if name == 'fread':
                z = self.num(args[1])
                n = self.num(args[2]).times(z.const()) if z.const() is not None else None
            if not isinstance(d, Lin) and d[0] == 'ptr':
                if n is None:
                    self.unknown.add((self.func.name, e.file, e.line, st.caps[d[1]][1], name))
                else:
                    self.need(st, d[1], d[2] + n, (e.file, e.line), name)
                st.slen[d[1]] = n - K(1) + d[2] if name in ('snprintf', 'vsnprintf', 'fgets', 'getcwd') and n is not None else None
                if name == 'memset' and isinstance(args[1], Lin) and args[1].const() == 0:
                    st.slen[d[1]] = d[2]
            if name in ('memcpy', 'memmove', 'mempcpy') and not isinstance(args[1], Lin) and args[1][0] == 'ptr' and n is not None:
                self.need(st, args[1][1], args[1][2] + n, (e.file, e.line), name + ' from')
                sl = st.slen.get(args[1][1])
                if not isinstance(d, Lin) and d[0] == 'ptr' and sl is not None and args[1][2] == K(0) and (n - sl).const() is not None and (n - sl).const() >= 1:
                    st.slen[d[1]] = d[2] + sl
            if name in ('memcpy', 'memmove') and not isinstance(d, Lin) and d[0] == 'ptr' and n is not None:
                l = self.strof(st, args[1]) if not (not isinstance(args[1], Lin) and args[1][0] == 'ptr') else None
                if l is not None and (n - l).const() is not None and (n - l).const() >= 1:
                    st.slen[d[1]] = d[2] + l
            return [(st, args[0])]
        if name in ALLOC:
            n = self.num(args[ALLOC[name]])
            b = self.next()
            st.caps[b] = (n, 'the memory allocated here', (e.file, e.line), 1)
            st.slen[b] = None
            if ALLOC[name] == 1 and not isinstance(args[0], Lin) and args[0][0] == 'ptr':
                st.slen[b] = st.slen.get(args[0][1])
            return [(st, ('ptr', b, K(0), 1))]
        # counts that go with arrays
        self.counted(name, e, st, args)
        f = self.tu.functions.get(name) if name else None
        cells = [v for v in st.env if isinstance(v, tuple) and v[0] == 'cell']
        touched = [c for c in cells if self.touches(f, name, args, c[1])]
        if f is not None and f.body is not None and (self.worth(f, args, e) or touched and f.static and len(list(walk(f.body))) < 400) and name not in [x.name for x in self.stack] and len(self.stack) < 4:
            return self.inline(f, st, args, e)
        # what is not known of here may change what it is given
        if touched and name not in self.ghosts:
            # done somewhere this does not look into
            for c in cells:
                del st.env[c]
        elif cells and (name == self.func.name or self.reach and name not in PURE and name not in STRFUNCS):
            self.check_invariants([st], cells, e)
            self.havoc(st, cells)
        for a in args:
            if not isinstance(a, Lin):
                if a[0] == 'ptr':
                    st.slen[a[1]] = None if name not in PURE and not self.constarg(f, args, a) else st.slen.get(a[1])
                elif a[0] == 'addr' and a[2][0] == 'var':
                    v = st.env.get(a[2][1])
                    if v is None or isinstance(v, Lin) or v[0] != 'arr':
                        st.env[a[2][1]] = self.fresh(a[1], 'u') if isinstance(v, Lin) else ('x', '?%d%s' % (self.next(), a[1]))
                elif a[0] == 'addr' and ('cell', a[1]) in st.env:
                    st.env[('cell', a[1])] = self.fresh(a[1])
        t = '%s(%s)' % (name or text(self.ev(e.c[0], st)[0][1]), ', '.join(text(a) for a in args))
        if name not in PURE and any(not isinstance(a, Lin) and a[0] in ('ptr', 'addr') for a in args):
            t += '@%d' % self.next()
        ty = e.ty or (f.ret if f is not None else None)
        if is_int(ty) or ty is None and name in PURE:
            k = self.kindof(ty)
            return [(st, self.atom(t, k if k != 'c' else 's'))]
        if ty and ty.rstrip().endswith('*'):
            return [(st, ('str', t, K(0), self.elem(ty)))]
        return [(st, ('x', t))]

    def touches(self, f, name, args, cell):
        """Whether a call has a hand in a growing array itself."""
        if name in PURE or name in STRFUNCS or name in ALLOC:
            return False
        base = re.match(r'\w+', cell).group(0)
        if any(re.match(r'&?%s\b' % base, text(a)) for a in args if not isinstance(a, Lin) and not (a[0] == 'str' and a[1] == cell)):
            return True
        return f is not None and f.body is not None and base not in [p[0] for p in f.params] and any(
            n.k == 'DeclRefExpr' and n.name == base and n.ref not in [p[2] for p in self.func.params] for n in walk(f.body))

    def constarg(self, f, args, a):
        if f is None:
            return False
        i = args.index(a)
        return i < len(f.params) and 'const ' in (f.params[i][1] or '')

    def counted(self, name, e, st, args):
        f = self.tu.functions.get(name) if name else None
        if f is None:
            return
        ps = [p[0] for p in f.params]
        for i, p in enumerate(ps):
            if p == 'args' and 'argc' in ps and i < len(args):
                j = ps.index('argc')
                if j < len(args) and not isinstance(args[i], Lin) and args[i][0] == 'ptr':
                    self.need(st, args[i][1], args[i][2] + self.num(args[j]).times(8), (e.file, e.line), 'arguments of ' + name)

    def worth(self, f, args, e):
        """Whether a function is followed where it is called."""
        if f.tu is not None and not f.static:
            pass
        if not f.static:
            return False
        if any(not isinstance(a, Lin) and (a[0] == 'ptr' or a[0] == 'addr' and a[2][0] == 'var') for a in args):
            return len(list(walk(f.body))) < 400
        r = (f.ret or '').strip()
        return is_int(r) and r not in ('_Bool', 'bool') and len(list(walk(f.body))) < 150 or r.endswith('*') and self.allocs(f)

    def allocs(self, f):
        return len(list(walk(f.body))) < 80 and any(n.k == 'CallExpr' and callee(n) in ALLOC for n in walk(f.body))

    def inline(self, f, st, args, e):
        save = self.slices
        s = st.copy()
        old = dict(st.names)
        for (pn, pt, pi, pq), a in zip(f.params, args):
            if not isinstance(a, Lin) and a[0] == 'x' and pt.rstrip().endswith('*'):
                a = ('str', a[1], K(0), self.elem(pt))
            elif not isinstance(a, Lin) and a[0] == 'x' and is_int(pt):
                a = self.atom(a[1], self.kindof(pt))
            s.env[pi] = self.conv(a, pt) if isinstance(a, Lin) else a
            s.names[pn] = pi
        self.stack.append(f)
        self.slices = Slice(self, f)
        loops = self.loops
        try:
            r = self.run(f.body, s)
        finally:
            self.stack.pop(); self.slices = save
        out = []
        for x, v in r.ret + [(x, None) for x in r.fall]:
            x.names = dict(old)
            if v is None:
                v = ('x', 'void')
            if not isinstance(v, Lin) and v[0] == 'arr':
                v = ('x', 'local')
            for i in [i for i in x.env if i not in st.env and i not in old.values()]:
                del x.env[i]
            x.conds = tuple(c for c in x.conds)
            out.append((x, v))
        return self.join(out)

    def join(self, out):
        seen = {}
        for s, v in out:
            k = (s.data(), vkey(v))
            if k in seen:
                o = seen[k][0]
                o.conds = tuple(c for c in o.conds if c in s.conds)
                o.cons = tuple(c for c in o.cons if c in s.cons)
            else:
                seen[k] = (s, v)
        r = list(seen.values())
        if len(r) > MAXPATHS:
            raise Unsupported('too many ways')
        return r

    def merge(self, ss):
        return [s for s, v in self.join([(s, K(0)) for s in ss])]

    def printed(self, st, args, es):
        """Lengths sprintf may print: [(state, Lin or None)]"""
        f = args[1]
        if isinstance(f, Lin) or f[0] != 'lit':
            return [(st, None)]
        n = K(0); i = 2
        pos = 0; s = f[1]
        for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', s):
            n = n + K(len(s[pos:m.start()])); pos = m.end()
            c = m.group(5)
            if c == '%':
                n = n + K(1)
                continue
            if m.group(2) == '*' or m.group(3) == '*' or i >= len(args):
                return [(st, None)]
            a = args[i]; ex = es[i] if i < len(es) else None
            i += 1
            w = int(m.group(2) or 0)
            if c == 'c':
                n = n + K(max(1, w))
            elif c == 's':
                l = self.strof(st, a)
                if l is None:
                    return [(st, None)]
                if m.group(3):
                    if l.const() is None:
                        l = K(int(m.group(3)))
                    else:
                        l = K(min(l.const(), int(m.group(3))))
                if w:
                    l = K(max(w, l.const())) if l.const() is not None else l + K(w)
                n = n + l
            elif c in 'dioxXu':
                big = m.group(4) in ('l', 'll', 'z', 'j', 't')
                v = self.num(a)
                if v.const() is not None:
                    x = v.const()
                    t = '%x' % (x & (2 ** 64 - 1 if big else 2 ** 32 - 1)) if c in 'xX' else '%o' % x if c == 'o' and x >= 0 else str(x)
                    d = len(t)
                else:
                    kind = 's'
                    if len(v.m) == 1:
                        (at, co), = v.m.items()
                        if co == 1 and at[0] == 't':
                            kind = at[2]
                    if kind == 'u8':
                        d = {'x': 2, 'X': 2, 'o': 3}.get(c, 3)
                    elif kind == 'c':
                        d = {'x': 8, 'X': 8, 'o': 11, 'u': 10}.get(c, 4)
                    else:
                        d = {'x': 8, 'X': 8, 'o': 11, 'u': 10}.get(c, 11) if not big else {'x': 16, 'X': 16, 'o': 22}.get(c, 20)
                n = n + K(max(d, w, int(m.group(3) or 0)) + (2 if '#' in m.group(1) else 0))
            else:
                return [(st, None)]
        n = n + K(len(s[pos:]))
        return [(st, n)]

    # statements
    def run(self, n, st):
        r = Res()
        if n is None:
            r.fall.append(st)
            return r
        k = n.k
        if k == 'CompoundStmt':
            names = dict(st.names)
            r = self.run_seq(list(n.c), [st])
            for s in r.fall + r.brk + r.cont:
                s.names = dict(names)
            return r
        if not self.slices.relevant(n):
            r.fall.append(st)
            return r
        if k == 'DeclStmt':
            sts = [st]
            for d in n.c:
                if d is not None and d.k == 'VarDecl':
                    sts = [x for s in sts for x in self.decl(d, s)]
            r.fall = sts
            return r
        if k == 'NullStmt':
            r.fall.append(st)
            return r
        if k == 'IfStmt':
            c, then = n.c[0], n.c[1]
            els = n.c[2] if len(n.c) > 2 else None
            for s, b in self.cond(c, st):
                q = self.run(then if b else els, s)
                r.add(q)
            r.fall = self.merge(r.fall)
            return r
        if k == 'ReturnStmt':
            if n.c and n.c[0] is not None:
                for s, v in self.ev(n.c[0], st):
                    r.ret.append((s, v))
            else:
                r.ret.append((st, None))
            return r
        if k == 'BreakStmt':
            r.brk.append(st)
            return r
        if k == 'ContinueStmt':
            r.cont.append(st)
            return r
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return self.loop(n, st)
        if k == 'SwitchStmt':
            return self.switch(n, st)
        if k in ('CaseStmt', 'DefaultStmt'):
            return self.run(n.c[-1], st)
        if k == 'LabelStmt':
            return self.run(n.c[-1], st)
        if k == 'GotoStmt':
            raise Unsupported('goto')
        if k.endswith('Stmt') and k not in ('AttributedStmt',):
            raise Unsupported(k)
        r.fall = self.merge([s for s, v in self.ev(n, st)])
        return r

    def run_seq(self, stmts, sts):
        r = Res()
        for x in stmts:
            nxt = []
            for s in sts:
                q = self.run(x, s)
                nxt += q.fall; r.brk += q.brk; r.cont += q.cont; r.ret += q.ret
            sts = self.merge(nxt)
            if not sts:
                break
        r.fall = sts
        return r

    def decl(self, d, st):
        ty = (d.ty or '').strip()
        raw = (d.x or ty).strip()
        st.names[d.name] = d.id
        m = re.match(r'^(.*?)\s*\[(.*)\]$', raw, re.S)
        if m and d.op not in ('static', 'extern'):
            z = self.elem(ty) if not re.search(r'\]\s*\[', raw) else None
            if z is None:
                z = self.sizeof(re.sub(r'\s*\[.*$', '', ty))
            if z is None or re.search(r'\]\s*\[', raw):
                st.env[d.id] = ('x', d.name)
                return [st]
            if m.group(2).strip() == '':
                st.env[d.id] = ('x', d.name)
                return [st]
            if m.group(2).strip().isdigit():
                outs = [(st, K(int(m.group(2))))]
            else:
                outs = self.ev(Parser(m.group(2)).expr(), st)
            res = []
            for s, n in outs:
                b = self.next()
                s.caps[b] = (self.num(n).times(z), d.name, (d.file, d.line), z)
                s.slen[b] = None
                s.env[d.id] = ('arr', b, z)
                if d.c and d.c[-1] is not None and d.c[-1].k == 'StringLiteral':
                    s.slen[b] = K(len(lint_string(d.c[-1]) or ''))
                res.append(s)
            return res
        i = d.c[-1] if d.c else None
        rec = self.tu.rec_by_name.get(re.sub(r'\b(const|struct)\b', '', ty).strip())
        if i is not None and i.k == 'InitListExpr' and rec is not None and d.op != 'static' and len(i.c) <= len(rec.fields):
            sts = [st]
            for (fl, c) in zip(rec.fields, i.c):
                if c is None or c.k == 'ImplicitValueInitExpr':
                    continue
                nxt = []
                for s in sts:
                    for s2, v in self.ev(c, s):
                        if is_int(fl[1]) or fl[1].rstrip().endswith('*'):
                            s2.env[(d.id, fl[0])] = self.conv(self.num(v, fl[1]), fl[1]) if is_int(fl[1]) else v
                        nxt.append(s2)
                sts = nxt
            for s in sts:
                s.env[d.id] = ('x', '?%d' % self.next())
                s.names[d.name] = d.id
            return sts
        if d.c and d.c[-1] is not None and d.op != 'static':
            res = []
            for s, v in self.ev(d.c[-1], st):
                if is_int(ty):
                    v = self.conv(self.num(v, ty), ty)
                elif not isinstance(v, Lin) and v[0] in ('ptr', 'str') and ty.endswith('*'):
                    v = v[:3] + (self.elem(ty),)
                s.env[d.id] = v
                s.names[d.name] = d.id
                res.append(s)
            return res
        st.env[d.id] = self.fresh(d.name, self.kindof(ty)) if is_int(ty) else ('x', d.name)
        return [st]

    def switch(self, n, st):
        r = Res()
        body = n.c[-1]
        items = list(body.c) if body.k == 'CompoundStmt' else [body]
        flat = []
        for x in items:
            labels = []
            while x is not None and x.k in ('CaseStmt', 'DefaultStmt'):
                labels.append(x.c[0] if x.k == 'CaseStmt' else None)
                x = x.c[-1]
            flat.append((labels, x))
        for s0, v in self.ev(n.c[0], st):
            has_default = any(None in ls for ls, x in flat)
            known = []
            for i, (ls, x) in enumerate(flat):
                for l in ls:
                    if l is None:
                        continue
                    for s, w in self.ev(l, s0.copy()):
                        known.append(w)
                        for s2, b in self.compare('==', v, w, s, n):
                            if b:
                                self.case(flat, i, s2, r)
            s = s0.copy()
            ok = True
            for w in known:
                ss = [s2 for s2, b in self.compare('==', v, w, s, n) if not b]
                if not ss:
                    ok = False
                    break
                s = ss[0]
            if ok:
                if has_default:
                    i = [i for i, (ls, x) in enumerate(flat) if None in ls][0]
                    self.case(flat, i, s, r)
                elif not self.T.exhaustive_type(n) if hasattr(self.T, 'exhaustive_type') else True:
                    r.fall.append(s)
        r.fall = self.merge(r.fall)
        return r

    def case(self, flat, i, s, r):
        names = dict(s.names)
        q = self.run_seq([x for ls, x in flat[i:]], [s])
        r.fall += q.fall + q.brk
        for x in q.fall + q.brk:
            x.names = dict(names)
        r.cont += q.cont; r.ret += q.ret

    # loops
    def assigned(self, nodes):
        out = set()
        for n in nodes:
            if n is None:
                continue
            for x in walk(n):
                t = None
                if x.k == 'BinaryOperator' and x.op == '=' or x.k == 'CompoundAssignOperator':
                    t = strip(x.c[0])
                elif x.k == 'UnaryOperator' and x.op in ('++', '--', '&'):
                    t = strip(x.c[0])
                f = None
                while t is not None and t.k == 'MemberExpr' and not t.val:
                    f = t.name; t = strip(t.c[0])
                if t is not None and t.k == 'DeclRefExpr':
                    out.add(t.ref)
                    if f:
                        out.add((t.ref, f))
        return out

    def loop(self, n, st):
        r = Res()
        if n.k == 'ForStmt':
            init, cond, inc, body = n.c[0], n.c[2], n.c[3], n.c[4]
            sts = [st] if init is None else self.run(init, st).fall if init.k.endswith('Stmt') else [s for s, v in self.ev(init, st)]
        elif n.k == 'WhileStmt':
            cond, inc, body = n.c[0], None, n.c[-1]; sts = [st]
        else:
            cond, inc, body = n.c[1], None, n.c[0]; sts = [st]
        for s in sts:
            r.add(self.loop1(n, s, cond, inc, body))
        r.fall = self.merge(r.fall)
        return r

    def once(self, n, st, cond, inc, body):
        """One round: -> (ends, breaks, returns, exits)"""
        if n.k == 'DoStmt':
            q = self.run(body, st)
            ends, exits = [], []
            for s in self.merge(q.fall + q.cont):
                for s2, b in self.cond(cond, s):
                    (ends if b else exits).append(s2)
            return ends, q.brk, q.ret, exits
        heads = self.cond(cond, st) if cond is not None else [(st, True)]
        ends, brk, ret, exits = [], [], [], [s for s, b in heads if not b]
        for s, b in heads:
            if not b:
                continue
            q = self.run(body, s)
            for s2 in self.merge(q.fall + q.cont):
                if inc is not None:
                    ends += [s3 for s3, v in self.ev(inc, s2)]
                else:
                    ends.append(s2)
            brk += q.brk; ret += q.ret
        return ends, brk, ret, exits

    def entry(self, st, L, vs, sub):
        s = st.copy()
        for v in vs:
            o = st.env[v]
            x = sub.get(v, A('it', L, v))
            if isinstance(o, Lin):
                s.env[v] = x
            elif o[0] in ('str', 'ptr') and o[3]:
                s.env[v] = (o[0], o[1], x.times(o[3]) if v not in sub else x, o[3])
            else:
                s.env[v] = ('x', '?%d' % self.next())
        for b in st.slen:
            if st.slen[b] is not None:
                s.slen[b] = sub.get(('slen', b), A('it', L, ('slen', b)))
        return s

    def value(self, st, v):
        if isinstance(v, tuple) and v[0] == 'slen':
            return st.slen.get(v[1])
        o = st.env.get(v)
        if o is None or isinstance(o, Lin):
            return o
        if o[0] in ('str', 'ptr') and o[3]:
            return self.div(o[2], o[3]) if True else None
        return None

    def base(self, st, v):
        o = st.env.get(v)
        return None if isinstance(v, tuple) or o is None or isinstance(o, Lin) else o[:2]

    def loop1(self, n, st, cond, inc, body):
        if any(isinstance(v, tuple) and v[0] == 'cell' for v in st.env):
            self.check_invariants([st], [1], n, True)
        L = self.next()
        vs = [v for v in self.assigned([cond, inc, body]) if v in st.env and not (not isinstance(st.env[v], Lin) and st.env[v][0] == 'arr')]
        cells = [v for v in st.env if isinstance(v, tuple) and v[0] == 'cell']
        vs = sorted(vs, key=str)
        r = Res()
        keys = vs + [('slen', b) for b in st.slen if st.slen[b] is not None]
        isit = lambda a: a[0] == 'it' and a[1] == L
        # first round: what changes by how much
        self.loops.append(L)
        try:
            s0 = self.entry(st, L, vs, {})
            self.havoc(s0, cells)
            save = self.steps
            ends, brk, ret, exits = self.once(n, s0, cond, inc, body)
        finally:
            self.loops.pop()
        deltas = {}
        for v in keys:
            ds = []
            for s in ends:
                x = self.value(s, v)
                if x is None or self.base(s, v) != self.base(s0, v):
                    ds.append(None)
                    continue
                d = x - A('it', L, v)
                ds.append(d if not d.has(isit) else None)
            deltas[v] = ds
        uniform = {v: ds[0].const() for v, ds in deltas.items() if ds and all(d is not None and d == ds[0] for d in ds) and ds[0].const() is not None}
        dom = None; sub = {}
        if n.k != 'DoStmt':
            heads = []
            if cond is not None:
                s0 = self.entry(st, L, vs, {})
                self.havoc(s0, cells)
                self.loops.append(L)
                try:
                    heads = [s for s, b in self.cond(cond, s0) if b]
                finally:
                    self.loops.pop()
            cand = []
            if len(heads) == 1:
                for kind, l in heads[0].cons:
                    if kind in ('ge', 'ne') and (kind, l) not in st.cons:
                        its = [a for a in l.m if a != 1 and isit(a)]
                        if len(its) == 1 and not isinstance(its[0][2], tuple) and abs(l.m[its[0]]) == 1:
                            v = its[0][2]; d = uniform.get(v)
                            c = l.m[its[0]]
                            rest = l - Lin({its[0]: c})
                            if kind == 'ne' and d in (1, -1) and c * d > 0:
                                c = -c; rest = rest.times(-1)
                            if d == 1 and c < 0:
                                last = rest if kind == 'ge' else rest - K(1)
                                cand.append((v, last - self.value(st, v) + K(1), self.value(st, v), 1))
                            elif d == -1 and c > 0:
                                first = rest.times(-1) if kind == 'ge' else rest.times(-1) + K(1)
                                cand.append((v, self.value(st, v) - first + K(1), first, 0))
                for t, p in heads[0].conds:
                    if p and (t, p) not in st.conds:
                        m = re.match(r"^(.*)\[(.*)\]$", t)
                        if m:
                            for v in keys:
                                if uniform.get(v) == 1:
                                    o = self.value(st, v)
                                    at = text(A('it', L, v))
                                    if m.group(2) == at and at not in m.group(1):
                                        T = m.group(1)
                                        cand.append((v, None, o, T))
            for v, cnt, first, how in cand:
                if how in (0, 1):
                    if cnt.has(isit) or first is None:
                        continue
                    dom = ('range', cnt.key())
                    self.bounds[('#', L)] = (K(0), cnt - K(1))
                else:
                    T = how
                    if first is None:
                        continue
                    if first != K(0):
                        T = '(%s + %s)' % (T, text(first))
                    dom = ('chars', T)
                    self.bounds[('#', L)] = (K(0), strlen(T) - K(1))
                h = Lin({('#', L): 1})
                for u, d in uniform.items():
                    o = self.value(st, u)
                    if o is None:
                        continue
                    z = 1
                    if not isinstance(u, tuple) and not isinstance(st.env[u], Lin):
                        z = st.env[u][3]
                    if how == 0 and u == v:
                        sub[u] = (first + h).times(z)
                    elif how == 0:
                        continue
                    else:
                        sub[u] = (o + h.times(d)).times(z)
                break
        if dom is None:
            dom = ('?', L)
        # second round
        self.loops.append(L)
        try:
            s0 = self.entry(st, L, vs, sub)
            self.havoc(s0, cells)
            inv = s0
            ends, brk, ret, exits = self.once(n, s0, cond, inc, body)
        finally:
            self.loops.pop()
        every = [(s, 'end') for s in ends] + [(s, 'brk') for s in brk] + [(s, 'ret') for s, v in ret]
        if n.k == 'DoStmt':
            every += [(s, 'end') for s in exits]
        base = set(st.conds)
        heads = set()
        per = {}
        for v in keys:
            if v in sub and not isinstance(v, tuple) and not self.value(st, v) is None and v in uniform:
                continue
            o = self.value(st, v)
            cases = []; mono = True; ok = o is not None
            for s, how in every:
                lits = frozenset((t, p) for t, p in s.conds if (t, p) not in base)
                x = self.value(s, v)
                d = None
                if x is not None and self.base(s, v) == self.base(st, v):
                    d = x - sub.get(v, A('it', L, v))
                    if d.has(isit):
                        # started again
                        d = None
                        if not x.has(isit) and o is not None and (o - x).const() is not None and (o - x).const() >= 0:
                            d = K(0); mono = False
                if d is None:
                    ok = False
                    break
                if d.const() is not None and d.const() < 0:
                    d = K(0); mono = False
                elif not all(c >= 0 for c in d.m.values()):
                    ok = False
                    break
                cases.append((lits, d))
            per[v] = (ok, mono, cases)
        after = {}
        for v in keys:
            o = self.value(st, v)
            if v not in per:
                d = uniform[v]
                if brk or dom[0] == '?':
                    b = ('b', self.next())
                    hi = o + count(dom).times(d) if d >= 0 else o
                    lo = o if d >= 0 else None
                    self.bounds[b] = (lo, hi)
                    after[v] = Lin({b: 1})
                else:
                    after[v] = o + count(dom).times(d)
                continue
            ok, mono, cases = per[v]
            if not ok:
                after[v] = None
                self.bounds[('it', L, v)] = (None, None)
                continue
            if all(d == K(0) for c, d in cases) and mono:
                after[v] = o
                self.bounds[('it', L, v)] = (o, o)
                continue
            tot = total(dom, self.simplify([(frozenset((close(t, L), p) for t, p in c), close(d, L)) for c, d in cases]))
            self.bounds[('it', L, v)] = (o if mono else None, o + tot)
            if mono and not brk and dom[0] != '?' and n.k != 'DoStmt':
                after[v] = o + tot
            else:
                b = ('b', self.next())
                self.bounds[b] = (o if mono else None, o + tot)
                after[v] = Lin({b: 1})
        self.loops.append(L)
        self.check_invariants(ends, cells, n)
        self.loops.pop()
        # what had to fit inside the loop
        for s, how in every + [(s, 'exit') for s in exits]:
            for ob in s.obs:
                if ob in st.obs:
                    continue
                kind, cap, need, name, line, what, conds, cons = ob
                if cap is not None and need is not None:
                    d = cap - need
                    m = {}
                    for a, c in d.m.items():
                        if a != 1 and isit(a):
                            v = a[2]
                            lo, hi = self.bounds.get(a, (None, None))
                            if c < 0 and hi is not None and v in per and per[v][0]:
                                x = self.value(s, v)
                                own = x - A('it', L, v) if x is not None else None
                                if own is not None and not own.has(isit) and all(k >= 0 for k in own.m.values()):
                                    hi = hi - own if how != 'exit' else hi
                            m[a] = (lo, hi, c)
                    for a, (lo, hi, c) in m.items():
                        v = lo if c > 0 else hi
                        if v is None:
                            d = None
                            break
                        d = d - Lin({a: c}) + v.times(c)
                    cap, need = (d, K(0)) if d is not None and m else (cap, need) if d is not None else (None, None)
                    ob2 = (kind, cap, need, name, line, what, conds, cons)
                else:
                    ob2 = ob
                if self.loops:
                    if ob2 not in st.obs:
                        st.obs = st.obs + (ob2,)
                else:
                    self.judge(ob2)
        out = st.copy()
        for v in vs:
            x = after[v]
            o = st.env[v]
            if isinstance(o, Lin):
                out.env[v] = x if x is not None else self.fresh('', 'u')
            elif o[0] in ('str', 'ptr') and o[3] and x is not None and self.value(st, v) is not None:
                out.env[v] = (o[0], o[1], x.times(o[3]), o[3])
            else:
                out.env[v] = ('x', '?%d' % self.next())
        for b in st.slen:
            if st.slen[b] is not None:
                out.slen[b] = after.get(('slen', b))
        for b in st.slen:
            if st.slen[b] is None and any(s.slen.get(b) is not None for s, h in every):
                out.slen[b] = None
        self.loops.append(L)
        self.havoc(out, cells)
        self.loops.pop()
        if cells and not brk:
            # the loop ended because its condition failed
            fs = [s for s, b in (self.cond(cond, out) if cond is not None and n.k != 'DoStmt' else [(out, False)]) if not b]
            r.fall = fs or [out]
        else:
            r.fall.append(out)
        for s, v in ret:
            s.obs = st.obs
            r.ret.append((s, self.outof(v, L)))
        if cond is None and not brk:
            r.fall = []
        return r

    def outof(self, v, L):
        return v

    def simplify(self, cases):
        """Joins cases that differ in one literal only and say the same."""
        cases = list(set(cases))
        while True:
            for i in range(len(cases)):
                for j in range(i):
                    (c1, d1), (c2, d2) = cases[i], cases[j]
                    if d1 != d2:
                        continue
                    if c1 == c2 or c1 <= c2 or c2 <= c1:
                        m = c1 & c2
                    else:
                        x = c1 ^ c2
                        if len(x) != 2 or len(set(t for t, p in x)) != 1:
                            continue
                        m = c1 & c2
                    cases = [c for k, c in enumerate(cases) if k not in (i, j)] + [(m, d1)]
                    break
                else:
                    continue
                break
            else:
                return cases

    # growing buffers with what is always true of them
    def havoc(self, st, cells):
        if not cells:
            return
        for c in cells:
            v = st.env[c]
            if isinstance(v, Lin):
                st.env[c] = self.fresh(c[1], 'u')
                self.free.update(self.names(st.env[c]))
            else:
                b = self.next()
                cap = self.fresh('cap', 'u')
                self.free.update(self.names(cap))
                st.caps[b] = (cap, c[1], None, v[3] if v[0] in ('ptr', 'str') else 1)
                st.slen[b] = self.fresh('len', 'u')
                st.env[c] = ('ptr', b, K(0), v[3] if v[0] in ('ptr', 'str') else 1)
        for kind, l in self.invariants(st):
            self.con(st, kind, l)

    def invariants(self, st, inloop=False):
        out = []
        for a, b in self.invs + (self.inloop if self.loops or inloop else []):
            x, y = self.cellval(a, st), self.cellval(b, st)
            if x is not None and y is not None:
                out.append(('ge', x - y))
        return out

    def cellval(self, t, st):
        l = K(0)
        for part in t.split(' + '):
            part = part.strip()
            m = re.match(r'^(?:(\d+)\*)?(.*)$', part)
            k = int(m.group(1) or 1); p = m.group(2)
            if p.isdigit():
                l = l + K(int(p) * k)
                continue
            m = re.match(r'^(cap|len)\((.*)\)$', p)
            if m:
                v = st.env.get(('cell', m.group(2)))
                if v is None or isinstance(v, Lin) or v[0] != 'ptr':
                    return None
                x = st.caps[v[1]][0] if m.group(1) == 'cap' else st.slen.get(v[1])
                if x is None:
                    return None
                l = l + x.times(k)
                continue
            v = st.env.get(('cell', p))
            if not isinstance(v, Lin):
                return None
            l = l + v.times(k)
        return l

    def check_invariants(self, sts, cells, n, inloop=False):
        if not cells:
            return
        for s in sts:
            for kind, l in self.invariants(s, inloop):
                self.oblige(s, ('inv', l, K(0), 'its growing array', (n.file, n.line), 'bookkeeping', s.conds, s.cons))

    def function(self, f):
        self.func = f
        self.stack = [f]; self.loops = []; self.steps = 0; self.invs = []; self.inloop = []; self.reach = False
        st = St()
        for pn, pt, pi, pq in f.params:
            st.names[pn] = pi
            st.env[pi] = self.named(st, pn, pt)
        g = self.ghosts.get(f.name)
        if g:
            def nm(t):
                t = re.sub(r'sizeof\((\w+)\)', lambda m: str(self.sizeof(m.group(1)) or 0), t)
                return re.sub(r'\$(\d)', lambda m: f.params[int(m.group(1))][0] if int(m.group(1)) < len(f.params) else '?', t)
            self.invs = [(nm(a), nm(b)) for a, b in g['always']]; self.inloop = [(nm(a), nm(b)) for a, b in g.get('loop', [])]; self.reach = g.get('reach', False)
            for t, z in g['cells'].items():
                t = nm(t)
                z = self.sizeof(z) if isinstance(z, str) else z
                st.env[('cell', t)] = K(0) if z == 0 else ('str', t, K(0), z)
            self.havoc(st, [v for v in st.env if isinstance(v, tuple)])
        self.slices = Slice(self, f)
        r = self.run(f.body, st)
        if g:
            for s in [s for s, v in r.ret] + r.fall:
                self.check_invariants([s], [1], f.body)
        return r


class Res(object):
    def __init__(self):
        self.fall = []; self.brk = []; self.cont = []; self.ret = []

    def add(self, o):
        self.fall += o.fall; self.brk += o.brk; self.cont += o.cont; self.ret += o.ret


class Slice(object):
    """The statements that have a say in sizes and in what is put where."""

    def __init__(self, ev, f):
        self.ev = ev
        self.memo = {}
        self.cells = False
        self.vars = set()
        self.f = f
        body = f.body
        byname = {}
        for n in walk(body):
            if n.k == 'VarDecl':
                byname.setdefault(n.name, []).append(n.id)
        for pn, pt, pi, pq in f.params:
            byname.setdefault(pn, []).append(pi)
        deps = {}

        def refs(n):
            out = set()
            for x in walk(n):
                if x.k == 'DeclRefExpr' and x.ref is not None:
                    out.add(x.ref)
            return out
        seeds = set()
        for n in walk(body):
            if n.k == 'VarDecl':
                raw = (n.x or n.ty or '')
                if '[' in raw and raw.endswith(']'):
                    seeds.add(n.id)
                    for w in re.findall(r'[A-Za-z_]\w*', raw[raw.index('['):]):
                        for i in byname.get(w, ()):
                            deps.setdefault(n.id, set()).add(i)
                if n.c and n.c[-1] is not None:
                    deps.setdefault(n.id, set()).update(refs(n.c[-1]))
                    if any(x.k == 'CallExpr' and callee(x) in ALLOC for x in walk(n.c[-1])):
                        seeds.add(n.id)
            elif n.k == 'BinaryOperator' and n.op == '=' or n.k == 'CompoundAssignOperator':
                t = strip(n.c[0])
                if t.k == 'DeclRefExpr':
                    deps.setdefault(t.ref, set()).update(refs(n.c[1]))
                    if any(x.k == 'CallExpr' and callee(x) in ALLOC for x in walk(n.c[1])):
                        seeds.add(t.ref)
            elif n.k == 'CallExpr' and callee(n) in STRFUNCS:
                seeds.update(refs(n))
            elif n.k == 'CallExpr' and f is not ev.func:
                pass
        if f is not ev.func:
            seeds.update(p[2] for p in f.params)
            for n in walk(body):
                if n.k == 'ReturnStmt':
                    seeds.update(refs(n))
        for n in walk(body):
            if n.k == 'ArraySubscriptExpr':
                b = refs(n.c[0])
                if b & seeds:
                    seeds.update(refs(n.c[1]))
        work = list(seeds)
        while work:
            v = work.pop()
            if v in self.vars:
                continue
            self.vars.add(v)
            work += list(deps.get(v, ()))
        loops = [n for n in walk(body) if n.k in ('ForStmt', 'WhileStmt', 'DoStmt')]
        while True:
            before = len(self.vars)
            for n in loops:
                head = n.c[2] if n.k == 'ForStmt' else n.c[0] if n.k == 'WhileStmt' else n.c[1]
                if head is None or not self.rel(n):
                    continue
                work = list(refs(head))
                while work:
                    v = work.pop()
                    if v not in self.vars:
                        self.vars.add(v)
                        work += list(deps.get(v, ()))
            if len(self.vars) == before:
                break
        self.cells = bool(ev.invs)

    def relevant(self, n):
        k = id(n)
        if k not in self.memo:
            self.memo[k] = self.rel(n)
        return self.memo[k]

    def rel(self, n):
        if self.cells:
            return True
        for x in walk(n):
            if x.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt'):
                return True
            if x.k == 'CallExpr' and (callee(x) in STRFUNCS or callee(x) in NORETURN):
                return True
            if x.k == 'VarDecl' and (x.id in self.vars):
                return True
            if x.k == 'DeclRefExpr' and x.ref in self.vars:
                return True
        return False


def lint_string(e):
    import lint
    return lint.string(e)


def interesting(f):
    """Whether a function has anything to decide."""
    for n in walk(f.body):
        if n.k == 'VarDecl' and '[' in (n.x or n.ty or '') and n.op not in ('static', 'extern') and not re.search(r'\[\]$', n.x or n.ty or ''):
            return True
        if n.k == 'CallExpr' and (callee(n) in STRFUNCS or callee(n) in ALLOC):
            return True
    return False


def analyse(tus, which=('text', 'count')):
    """which: strings and what is printed into them, or arrays and their counts."""
    res = []
    for rel, tu in sorted(tus.items()):
        for f in list(tu.functions.values()):
            if f.body is None or not f.file or f.file.startswith('/') or not interesting(f):
                continue
            ev = Eval(tu, GHOSTS.get(rel))
            r = dict(rel=rel, func=f.name, status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 0})
            try:
                ev.function(f)
            except Unsupported as x:
                r['status'] = 'not analysed: %s' % x
                res.append(r)
                continue
            except RecursionError:
                r['status'] = 'not analysed: too deep'
                res.append(r)
                continue
            mine = [k for k in ev.checked - ev.unknown if group(k[4]) in which]
            r['stats']['stmts'] = ev.steps
            r['stats']['obligations'] = len(mine)
            r['undecided'] = len([k for k in ev.unknown if group(k[4]) in which])
            if not mine and not r['undecided']:
                continue
            seen = set()
            for x in ev.findings:
                if group(x.what) not in which or (x.line, x.what, x.detail[0]) in seen:
                    continue
                seen.add((x.line, x.what, x.detail[0]))
                msg = '%s: %s' % (x.what, x.detail[0]) if x.detail[1] == '0' else '%s needs %s of the %s bytes of %s' % (x.what, clip(x.detail[1]), clip(x.detail[2]), x.detail[0])
                if x.detail[1] == '0':
                    msg = '%s goes beyond what %s has room for (left over: %s)' % (x.what, x.detail[0], clip(x.detail[2]))
                r['violations'].append({'rule': 'size', 'file': x.file, 'line': x.line, 'function': x.func, 'root': f.name, 'msg': msg, 'path': ''})
            res.append(r)
    return res


def clip(s):
    return s if len(s) < 160 else s[:157] + '...'


def group(what):
    return 'text' if what.split()[0] in ('strcpy', 'strcat', 'sprintf', 'snprintf', 'strncpy', 'strncat', 'stpcpy', 'vsprintf', 'vsnprintf', 'fgets', 'getcwd') else 'count'


# Arrays that grow: where the array and its counts are, and what always holds of them.
GHOSTS = {
    'bin/fble-perf-profile.c': {'GetLine': dict(
        cells={'$1->chars': 1, '$1->capacity': 0, '$1->size': 0},
        always=[('cap($1->chars)', '$1->capacity')], loop=[('$1->capacity', '$1->size + 1')])},
    'fbld/markup.c': {'TextOfMarkup': dict(
        cells={'$1[0]': 1, '$2[0]': 0}, always=[('cap($1[0])', 'len($1[0]) + $2[0]')])},
    'fbld/parse.c': {'NextFetched': dict(
        cells={'$0->next': 1, '$0->next_capacity': 0, '$0->next_size': 0},
        always=[('cap($0->next)', '$0->next_capacity'), ('$0->next_capacity', '$0->next_size'), ('$0->next_capacity', '1')])},
    'lib/profile.c': {'EnterBlock': dict(
        cells={'$0->sample.xs': 'Sample', '$0->sample.size': 0, '$0->sample.capacity': 0},
        always=[('cap($0->sample.xs)', 'sizeof(Sample)*$0->sample.capacity'), ('$0->sample.capacity', '$0->sample.size'), ('$0->sample.capacity', '1')])},
    'lib/value.c': dict((f, dict(
        cells={'gTailCallData.func_and_args': 8, 'gTailCallData.capacity': 0, 'gTailCallData.argc': 0}, reach=True,
        always=[('cap(gTailCallData.func_and_args)', '8*gTailCallData.capacity'), ('gTailCallData.capacity', 'gTailCallData.argc + 1')]))
        for f in ('TailCall', 'FbleCall', 'FbleTailCall')),
}



if __name__ == '__main__':
    import core, sys
    core.load_all(fe.sources())
    rs = analyse({r: core.tu(r) for r in fe.sources()})
    print(len(rs), sum(r['stats']['obligations'] for r in rs), sum(r.get('undecided', 0) for r in rs))
    for r in rs:
        if r['status'] != 'ok':
            print('--', r['rel'], r['func'], r['status'])
        for v in r['violations']:
            print((v['file'], v['line'], v['function'], v['msg']))
