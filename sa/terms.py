"""Abstract evaluation of C functions to terms and event traces.

Every function is evaluated over symbolic terms: values are terms over what
the function is given, memory is a map from places to terms, and what the
function does to the outside is a trace of events (calls and emitted text).
Each loop is evaluated for one generic iteration, whatever the number of
iterations: an index that runs over 0..N-1 becomes the term ('each', N), so
the same loop written differently gives the same terms.  Conditions that are
not decided by the terms fork the evaluation and are recorded.  No solver and
no bound on the number of iterations is involved.
"""
import re
import fe


class Unsupported(Exception):
    pass


ZERO = ('int', 0)


def lin(t):
    """Term -> (const, {term: coef})."""
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, m):
    m = {t: k for t, k in m.items() if k}
    if not m:
        return ('int', c)
    if c == 0 and len(m) == 1:
        (t, k), = m.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(m.items(), key=repr)))


def add(a, b, s=1):
    ca, ma = lin(a); cb, mb = lin(b)
    for t, k in mb.items():
        ma[t] = ma.get(t, 0) + s * k
    return mklin(ca + s * cb, ma)


def mul(a, b):
    if b[0] == 'int':
        a, b = b, a
    if a[0] == 'int':
        c, m = lin(b)
        return mklin(c * a[1], {t: k * a[1] for t, k in m.items()})
    return ('op', '*') + tuple(sorted((a, b), key=repr))


class State(object):
    __slots__ = ('mem', 'cons', 'eqs', 'events', 'seq')

    def __init__(self):
        self.mem = {}; self.cons = {}; self.eqs = {}; self.events = []; self.seq = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.cons = dict(self.cons); s.eqs = dict(self.eqs); s.events = list(self.events); s.seq = self.seq
        return s


class Rep(object):
    """A generic iteration in a trace."""

    def __init__(self, n, dir, paths, head=None, init=None, stop=(), partial=False):
        self.n = n; self.dir = dir; self.paths = paths; self.head = head
        self.init = init or {}      # carried variable -> value before the first round
        self.stop = stop            # ways to end by the condition other than its count
        self.partial = partial      # left from within a round

    def __repr__(self):
        return 'Rep(%s,%s,%d)' % (self.n, self.dir, len(self.paths))


class Frame(object):
    def __init__(self, func, depth, varargs=()):
        self.func = func; self.depth = depth; self.varargs = varargs


ESC = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '0': '\0', '\\': '\\', '"': '"', "'": "'", '?': '?', 'e': '\x1b'}


def cstr(v):
    v = v[v.index('"') + 1:-1]
    out = []
    i = 0
    while i < len(v):
        ch = v[i]
        if ch == '\\' and i + 1 < len(v):
            m = re.match(r'\\x([0-9a-fA-F]+)', v[i:])
            if m:
                out.append(chr(int(m.group(1), 16))); i += len(m.group(0)); continue
            m = re.match(r'\\([0-7]{1,3})', v[i:])
            if m:
                out.append(chr(int(m.group(1), 8))); i += len(m.group(0)); continue
            out.append(ESC.get(v[i + 1], v[i + 1])); i += 2
            continue
        out.append(ch); i += 1
    return ''.join(out)


DIRECTIVE = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|t|j)?([diouxXcsp%])')


def format_pieces(fmt, args):
    """Pieces of formatted output: text and ('hole', directive, term)."""
    out = []
    pos = 0
    args = list(args)
    for m in DIRECTIVE.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%'); continue
        if not args:
            raise Unsupported('format without argument')
        a = args.pop(0)
        if m.group(5) == 's' and a[0] == 'str':
            out.append(a[1])
        elif m.group(5) in 'di' and a[0] == 'int' and not m.group(2):
            out.append(str(a[1]))
        elif m.group(5) == 'p' and a[0] == 'int':
            out.append('%#x' % a[1])
        elif m.group(5) == 'c' and a[0] == 'int':
            out.append(chr(a[1] & 255))
        else:
            out.append(('hole', m.group(0), a))
    out.append(fmt[pos:])
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        elif p != '':
            res.append(p)
    return res


class Eval(object):
    MAX = 4000

    def __init__(self, tu, opaque=None, funcs=None):
        self.tu = tu
        self.funcs = funcs or tu.functions
        self._opaque = {}
        self.extra = opaque or set()
        self.depth = 0
        self.steps = 0
        self.any = 0
        self.stack = []
        self.globals = {}
        self.pure = set()           # more functions that leave what their arguments point to alone
        self.fixed = {}
        self.watch = {}             # function -> field whose value it sees
        self.bases = None
        self.holes = {}
        self.line = None

    # -- which functions are evaluated in place --------------------------------
    def opaque(self, name):
        r = self._opaque.get(name)
        if r is None:
            f = self.funcs.get(name)
            r = True
            if f is not None and f.body is not None and f.static and name not in self.extra and not (f.file or '').startswith('/'):
                r = False
                for n in fe.walk(f.body):
                    if n.k == 'CallExpr' and fe.callee(n) == name:
                        r = True
                    elif n.k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                        cond = n.c[2] if n.k == 'ForStmt' else n.c[0] if n.k == 'WhileStmt' else n.c[1]
                        for m in fe.walk(cond) if cond is not None else ():
                            if m.k == 'UnaryOperator' and m.op == '*' and (m.ty or '').replace('const ', '').strip() in ('char', 'unsigned char'):
                                r = True
                    elif n.k in ('GotoStmt', 'IndirectGotoStmt'):
                        r = True
            self._opaque[name] = r
        return r

    # -- places -----------------------------------------------------------------
    def deref(self, p):
        if p[0] == 'addr':
            return (p[1], p[2])
        if p[0] == 'padd':
            return (p[1], (('i', p[2]),))
        return (p, ())

    def addr(self, loc):
        b, path = loc
        if b[0] != 'var' and b[0] != 'gl':
            if not path:
                return b
            if len(path) == 1 and path[0][0] == 'i':
                return self.padd(b, path[0][1])
        return ('addr', b, path)

    def padd(self, p, k):
        if k == ZERO:
            return p
        if p[0] == 'addr':
            if p[2] and p[2][-1][0] == 'i':
                return ('addr', p[1], p[2][:-1] + (('i', add(p[2][-1][1], k)),))
            return ('addr', p[1], p[2] + (('i', k),))
        if p[0] == 'padd':
            k = add(p[2], k)
            return p[1] if k == ZERO else ('padd', p[1], k)
        return ('padd', p, k)

    def read(self, st, loc, ty=None):
        b, path = loc
        # whole aggregate?
        sub = [(p[len(path):], v) for (bb, p), v in st.mem.items() if bb == b and len(p) > len(path) and p[:len(path)] == path]
        v = st.mem.get(loc)
        if sub:
            if self.is_agg(ty):
                return ('agg', tuple(sorted(sub, key=repr)), v if v is not None else self.inherit(st, b, path))
        if v is not None:
            return self.simp(st, v)
        return self.simp(st, self.inherit(st, b, path))

    def inherit(self, st, b, path):
        # symbolic index into a table of known entries
        for i, e in enumerate(path):
            if e[0] == 'i' and e[1][0] != 'int':
                pre = path[:i]
                ent = {}
                ok = True
                for (bb, p), v in st.mem.items():
                    if bb == b and len(p) > i and p[:i] == pre:
                        if p[i][0] == 'i' and p[i][1][0] == 'int' and p[i + 1:] == path[i + 1:]:
                            ent[p[i][1][1]] = v
                        elif p[i][0] == 'i' and p[i][1][0] != 'int':
                            ok = False
                k = st.eqs.get(e[1])
                if ok and ent and k is not None and k in ent:
                    return ent[k]
                if ok and ent and sorted(ent) == list(range(len(ent))):
                    return ('tab', tuple(ent[j] for j in range(len(ent))), e[1])
        for i in range(len(path) - 1, -1, -1):
            v = st.mem.get((b, path[:i]))
            if v is not None:
                return self.proj(v, path[i:])
        if b[0] == 'var':
            return ('undef', b[1], path)
        return ('ld', b, path)

    def proj(self, v, path):
        if v[0] == 'ld':
            return ('ld', v[1], v[2] + path)
        if v[0] == 'sym' and self.stirs:
            return ('ld', v, path)
        if v[0] == 'zero':
            return ZERO
        if v[0] == 'undef':
            return ('undef', v[1], v[2] + path)
        if v[0] == 'agg':
            best = None
            for p, x in v[1]:
                if p == path:
                    return x
                if path[:len(p)] == p:
                    best = (p, x)
            if best:
                return self.proj(best[1], path[len(best[0]):])
            return self.proj(v[2], path)
        return ('proj', v, path)

    def is_agg(self, ty):
        if not ty:
            return False
        ty = ty.replace('const ', '').strip()
        return not ty.endswith('*') and (ty in self.tu.rec_by_name or ty.startswith('struct ') or ty.startswith('union ')) and not ty.endswith(']')

    def simp(self, st, v):
        k = st.eqs.get(v)
        return ('int', k) if k is not None else v

    def write(self, st, loc, v):
        b, path = loc
        for key in [k for k in st.mem if k[0] == b and len(k[1]) > len(path) and k[1][:len(path)] == path]:
            del st.mem[key]
        if v[0] == 'agg':
            if v[2] is not None:
                st.mem[loc] = v[2]
            for p, x in v[1]:
                st.mem[(b, path + p)] = x
        else:
            st.mem[loc] = v

    # -- conditions ---------------------------------------------------------------
    def atom(self, v):
        """Value -> (atom or bool, polarity)."""
        if v[0] == 'int':
            return v[1] != 0, True
        if v[0] == 'bool':
            return v[1], v[2]
        if v[0] in ('str', 'fn', 'addr'):
            return True, True
        return ('nz', v), True

    def compare(self, op, a, b):
        if a[0] == 'bool' and b[0] == 'int':
            if op in ('==', '!=') and b[1] in (0, 1):
                return ('bool', a[1], a[2] == ((op == '==') == (b[1] == 1)))
        if op == '!=':
            r = self.compare('==', a, b)
            return ('int', 1 - r[1]) if r[0] == 'int' else ('bool', r[1], not r[2])
        if op == '>':
            return self.compare('<', b, a)
        if op in ('<=', '>='):
            r = self.compare('<', b, a) if op == '<=' else self.compare('<', a, b)
            return ('int', 1 - r[1]) if r[0] == 'int' else ('bool', r[1], not r[2])
        if a[0] == 'int' and b[0] == 'int':
            return ('int', int(a[1] == b[1] if op == '==' else a[1] < b[1]))
        if op == '==':
            if a == b:
                return ('int', 1)
            c, m = lin(add(a, b, -1)) if a[0] in ('int', 'lin') or b[0] in ('int', 'lin') else (1, {0: 2})
            if len(m) == 1:
                (t, k), = m.items()
                if k in (1, -1):
                    a, b = t, ('int', -c * k)
            if b[0] != 'int' and repr(b) < repr(a):
                a, b = b, a
            if a[0] == 'int':
                a, b = b, a
            if b == ZERO:
                at, pol = self.atom(a)
                return ('int', int(not at)) if isinstance(at, bool) else ('bool', at, not pol)
            if b[0] == 'int' and a[0] in ('str', 'fn'):
                return ZERO
            return ('bool', ('eq', a, b), True)
        if a == ZERO:
            return ('bool', ('nz', b), True) if b[0] != 'bool' else b      # unsigned 0 < b
        return ('bool', ('lt', a, b), True)

    def decide(self, st, atom):
        if atom in st.cons:
            return st.cons[atom]
        if atom[0] in ('lt', 'eq') and atom[1] == atom[2]:
            return atom[0] == 'eq'
        if atom[0] == 'nz':
            k = st.eqs.get(atom[1])
            if k is not None:
                return k != 0
        if atom[0] == 'eq' and atom[2][0] == 'int':
            k = st.eqs.get(atom[1])
            if k is not None:
                return k == atom[2][1]
        return None

    def assume(self, st, atom, val):
        st.cons[atom] = val
        if atom[0] == 'eq' and val and atom[2][0] == 'int':
            st.eqs[atom[1]] = atom[2][1]
        elif atom[0] == 'eq' and val and atom[1][0] == 'int':
            st.eqs[atom[2]] = atom[1][1]
        elif atom[0] == 'nz' and not val:
            st.eqs[atom[1]] = 0

    def fork(self, st, v):
        """Value as a condition -> [(state, bool)]."""
        at, pol = self.atom(v)
        if isinstance(at, bool):
            return [(st, at == pol)]
        d = self.decide(st, at)
        if d is not None:
            return [(st, d == pol)]
        a = st.copy(); b = st.copy()
        self.assume(a, at, True); self.assume(b, at, False)
        return [(a, pol), (b, not pol)]

    def cond(self, e, st, fr):
        e = self.strip(e)
        if e.k == 'BinaryOperator' and e.op in ('&&', '||'):
            out = []
            for s, v in self.cond(e.c[0], st, fr):
                if v == (e.op == '||'):
                    out.append((s, v))
                else:
                    out += self.cond(e.c[1], s, fr)
            return out
        if e.k == 'UnaryOperator' and e.op == '!':
            return [(s, not v) for s, v in self.cond(e.c[0], st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.fork(s, v)
        return out

    # -- expressions ----------------------------------------------------------------
    def strip(self, e):
        while e.k == 'ParenExpr' or (e.k == 'ImplicitCastExpr' and e.op in ('NoOp', 'PointerToBoolean', 'IntegralToBoolean', 'IntegralCast')):
            e = e.c[0]
        return e

    def lv(self, e, st, fr):
        """Lvalue -> [(state, place)]."""
        if e.k == 'DeclRefExpr':
            if e.val in ('VarDecl', 'ParmVarDecl'):
                if e.ref in fr.vars:
                    return [(st, (('var', fr.vars[e.ref]), ()))]
                return [(st, self.gplace(st, e.name))]
            raise Unsupported('reference to %s' % e.val)
        if e.k == 'MemberExpr':
            f = self.field(e.c[0].ty, e.name)
            if e.val:
                out = []
                for s, p in self.ev(e.c[0], st, fr):
                    b, path = self.deref(p)
                    out.append((s, (b, path + f)))
                return out
            return [(s, (b, path + f)) for s, (b, path) in self.lv(e.c[0], st, fr)]
        if e.k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.ev(e.c[0], st, fr):
                for s2, i in self.ev(e.c[1], s, fr):
                    out.append((s2, self.deref(self.padd(p, i))))
            return out
        if e.k == 'UnaryOperator' and e.op == '*':
            return [(s, self.deref(p)) for s, p in self.ev(e.c[0], st, fr)]
        if e.k in ('ParenExpr',) or (e.k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.op in ('NoOp', 'BitCast')):
            return self.lv(e.c[0], st, fr)
        if e.k == 'UnaryOperator' and e.op == '__extension__':
            return self.lv(e.c[0], st, fr)
        if e.k == 'StringLiteral' or e.k == 'PredefinedExpr':
            raise Unsupported('string place')
        if e.k == 'CompoundLiteralExpr':
            out = []
            for s, v in self.init(e.c[0], st, fr, e.ty):
                self.any += 1
                loc = (('var', 'cl%d' % self.any), ())
                self.write(s, loc, v)
                out.append((s, loc))
            return out
        if e.k in ('CallExpr', 'ConditionalOperator', 'BinaryOperator'):
            # an rvalue aggregate used as a base
            out = []
            for s, v in self.ev(e, st, fr):
                self.any += 1
                loc = (('var', 'tmp%d' % self.any), ())
                self.write(s, loc, v)
                out.append((s, loc))
            return out
        raise Unsupported('lvalue ' + e.k)

    def constant(self, name, g):
        """A global of this file that nothing changes."""
        if g.op != 'static' or self.elements:
            return False
        if name not in self.fixed:
            def names(n):
                while n is not None and n.k in ('MemberExpr', 'ArraySubscriptExpr', 'ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.c:
                    if n.k == 'MemberExpr' and n.val:
                        return None
                    n = n.c[0]
                return n.name if n is not None and n.k == 'DeclRefExpr' else None

            def changes(n):
                if n is None:
                    return False
                if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.op or '').endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                    if names(n.c[0]) == name:
                        return True
                if n.k == 'UnaryOperator' and n.op in ('&', '++', '--') and names(n.c[0]) == name:
                    return True
                return any(changes(c) for c in n.c)
            self.fixed[name] = not any(changes(f.body) for f in self.tu.functions.values() if f.body is not None)
        return self.fixed[name]

    def gplace(self, st, name):
        loc = (('gl', name), ())
        g = self.tu.globals.get(name)
        if g is not None and g.c and ('const' in (g.x or '') or self.constant(name, g)) and loc not in st.mem and not any(k[0] == loc[0] for k in st.mem):
            fr = Frame(None, 0); fr.vars = {}
            s = State()
            for s2, v in self.init(g.c[-1], s, fr, g.ty):
                self.write(st, loc, v)
                break
        return loc

    def field(self, ty, name):
        """Path step of a field; the fields of a base are named after it."""
        if name == '_base':
            return ()
        ty = (ty or '').replace('const ', '').replace('*', '').strip()
        if self.bases is None:
            self.bases = set()
            for r in list(self.tu.rec_by_name.values()):
                for f in r.fields:
                    if f[0] == '_base':
                        self.bases.add(f[1].replace('struct ', '').strip()); self.bases.add((f[2] or '').replace('struct ', '').strip())
        t = ty.replace('struct ', '')
        return (('f', t + '.' + name if t in self.bases else name),)

    def init(self, e, st, fr, ty):
        if e.k == 'InitListExpr':
            cells = []
            states = [(st, ())]
            names = None
            t = (e.ty or ty or '').replace('const ', '').strip()
            if t.endswith(']'):
                et = re.sub(r'\[[^\]]*\]$', '', t, 1) if t.count('[') == 1 else None
                keys = [('i', ('int', i)) for i in range(len(e.c))]
            else:
                rec = self.tu.rec_by_name.get(t)
                if rec is None:
                    raise Unsupported('initializer of ' + t)
                keys = [(self.field(t, f[0]) or (None,))[0] for f in rec.fields][:len(e.c)]
            for c, key in zip(e.c, keys):
                nxt = []
                for s, cells in states:
                    if c is None or c.k == 'ImplicitValueInitExpr':
                        nxt.append((s, cells + ((((key,) if key else ()), ('zero',)),)))
                        continue
                    for s2, v in self.init(c, s, fr, c.ty):
                        k = (key,) if key else ()
                        if v[0] == 'agg':
                            add_ = tuple((k + p, x) for p, x in v[1])
                            if v[2] is not None:
                                add_ = ((k, v[2]),) + add_
                        else:
                            add_ = ((k, v),)
                        nxt.append((s2, cells + add_))
                states = nxt
            return [(s, ('agg', cells, ('zero',))) for s, cells in states]
        return self.ev(e, st, fr)

    def sizeof(self, ty):
        ty = (ty or '').replace('const ', '').strip()
        if ty.endswith('*'):
            return 8
        base = {'char': 1, '_Bool': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'size_t': 8, 'unsigned long': 8, 'long': 8, 'uint64_t': 8, 'double': 8}
        if ty in base:
            return base[ty]
        m = re.match(r'(.*)\[(\d*)\]$', ty)
        if m:
            n = self.sizeof(m.group(1).strip())
            return None if n is None else n * int(m.group(2) or 0)
        rec = self.tu.rec_by_name.get(ty)
        if rec is not None and rec.tag == 'struct':
            lay = self.layout(rec)
            return lay[1] if lay else None
        if ty.startswith('enum ') or ty in self.tu.enums:
            return 4
        return None

    def align(self, ty):
        ty = (ty or '').replace('const ', '').strip()
        m = re.match(r'(.*)\[(\d*)\]$', ty)
        if m:
            return self.align(m.group(1).strip())
        rec = self.tu.rec_by_name.get(ty)
        if rec is not None and rec.tag == 'struct' and not ty.endswith('*'):
            return max([self.align(f[1]) or 1 for f in rec.fields] or [1])
        return self.sizeof(ty)

    def layout(self, rec):
        off = 0; offs = {}; al = 1
        for f in rec.fields:
            n = self.sizeof(f[1]); a = self.align(f[1])
            if n is None or not a:
                return None
            off = (off + a - 1) // a * a
            offs[f[0]] = off
            off += n
            al = max(al, a)
        return offs, (off + al - 1) // al * al

    def offsetof(self, e):
        try:
            src = open(fe.REPO + '/' + e.file).read().split('\n')[e.line - 1]
        except Exception:
            raise Unsupported('offsetof')
        ms = re.findall(r'offsetof\(\s*([\w ]+?)\s*,\s*(\w+)\s*\)', src)
        if len(ms) != 1:
            raise Unsupported('offsetof')
        rec = self.tu.rec_by_name.get(ms[0][0]) or self.tu.rec_by_name.get(ms[0][0].replace('struct ', ''))
        lay = rec and self.layout(rec)
        if not lay or ms[0][1] not in lay[0]:
            raise Unsupported('offsetof')
        return ('int', lay[0][ms[0][1]])

    def evs(self, es, st, fr):
        out = [(st, ())]
        for e in es:
            out = [(s2, vs + (v,)) for s, vs in out for s2, v in self.ev(e, s, fr)]
        return out

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 2000000:
            raise Unsupported('too long')
        k = e.k
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(st, ('int', int(e.val)))]
        if k == 'FloatingLiteral':
            x = float(e.val)
            return [(st, ('int', int(x)) if x == int(x) else ('fn', repr(x)))]
        if k == 'StringLiteral':
            return [(st, ('str', cstr(e.val)))]
        if k == 'DeclRefExpr':
            if e.val == 'EnumConstantDecl':
                if e.name in self.holes:
                    return [(st, self.holes[e.name])]
                v = self.tu.enum_val.get(e.name)
                return [(st, ('int', v))]
            if e.val == 'FunctionDecl':
                return [(st, ('fn', e.name))]
            return [(s, self.addr(l)) for s, l in self.lv(e, st, fr)]
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            c = e.c[0]
            if e.op == 'LValueToRValue':
                return [(s, self.read(s, l, e.ty)) for s, l in self.lv(c, st, fr)]
            if e.op == 'ArrayToPointerDecay':
                c2 = c
                while c2.k in ('ParenExpr',) or (c2.k == 'UnaryOperator' and c2.op == '__extension__'):
                    c2 = c2.c[0]
                if c2.k == 'PredefinedExpr':
                    return [(st, ('str', '?'))]
                if c2.k == 'StringLiteral':
                    return [(st, ('str', cstr(c2.val)))]
                return [(s, ('addr', b, p + (('i', ZERO),))) for s, (b, p) in self.lv(c, st, fr)]
            if e.op == 'NullToPointer':
                return [(st, ZERO)]
            if e.op in ('PointerToBoolean', 'IntegralToBoolean'):
                out = []
                for s, v in self.ev(c, st, fr):
                    at, pol = self.atom(v)
                    out.append((s, ('int', int(at)) if isinstance(at, bool) else ('bool', at, pol)))
                return out
            if e.op == 'ToVoid':
                return [(s, ('void',)) for s, v in self.ev(c, st, fr)]
            return self.ev(c, st, fr)
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return [(s, self.addr(l)) for s, l in self.lv(e, st, fr)]
        if k == 'UnaryOperator':
            if e.op == '&':
                if self.strip(e.c[0]).k == 'DeclRefExpr' and self.strip(e.c[0]).val == 'FunctionDecl':
                    return [(st, ('fn', self.strip(e.c[0]).name))]
                return [(s, self.addr(l)) for s, l in self.lv(e.c[0], st, fr)]
            if e.op == '!':
                return [(s, ('int', int(v))) for s, v in self.cond(e, st, fr)] if self.forky(e.c[0]) else \
                       [(s, self.compare('==', v, ZERO)) for s, v in self.ev(e.c[0], st, fr)]
            if e.op == '-':
                return [(s, mul(('int', -1), v)) for s, v in self.ev(e.c[0], st, fr)]
            if e.op == '+' or e.op == '__extension__':
                return self.ev(e.c[0], st, fr)
            if e.op in ('++', '--'):
                out = []
                for s, l in self.lv(e.c[0], st, fr):
                    old = self.read(s, l, e.ty)
                    d = ('int', 1 if e.op == '++' else -1)
                    new = self.padd(old, d) if (e.ty or '').endswith('*') else add(old, d)
                    self.write(s, l, new)
                    out.append((s, old if e.val else new))
                return out
            if e.op == '*':
                return [(s, self.addr(l)) for s, l in self.lv(e, st, fr)]
            if e.op == '~':
                return [(s, ('op', '~', v)) for s, v in self.ev(e.c[0], st, fr)]
        if k == 'BinaryOperator':
            if e.op == '=':
                out = []
                for s, v in self.ev(e.c[1], st, fr):
                    for s2, l in self.lv(e.c[0], s, fr):
                        self.write(s2, l, v)
                        out.append((s2, v))
                return out
            if e.op == ',':
                return [r for s, _ in self.ev(e.c[0], st, fr) for r in self.ev(e.c[1], s, fr)]
            if e.op in ('&&', '||'):
                return [(s, ('int', int(v))) for s, v in self.cond(e, st, fr)]
            out = []
            ptr = (e.c[0].ty or '').endswith('*'), (e.c[1].ty or '').endswith('*')
            for s, (a, b) in self.evs(e.c, st, fr):
                out.append((s, self.binop(e.op, a, b, ptr)))
            return out
        if k == 'CompoundAssignOperator':
            out = []
            for s, v in self.ev(e.c[1], st, fr):
                for s2, l in self.lv(e.c[0], s, fr):
                    old = self.read(s2, l, e.c[0].ty)
                    new = self.binop(e.op[:-1], old, v, ((e.c[0].ty or '').endswith('*'), False))
                    self.write(s2, l, new)
                    out.append((s2, new))
            return out
        if k == 'ConditionalOperator':
            out = []
            for s, v in self.cond(e.c[0], st, fr):
                out += self.ev(e.c[1] if v else e.c[2], s, fr)
            return out
        if k == 'UnaryExprOrTypeTraitExpr':
            ty = e.x or (e.c[0].ty if e.c else None)
            n = self.sizeof(ty) if e.name == 'sizeof' else None
            return [(st, ('int', n) if n is not None else ('sizeof', ty))]
        if k == 'OffsetOfExpr':
            return [(st, self.offsetof(e))]
        if k == 'CallExpr':
            return self.call(e, st, fr)
        if k == 'InitListExpr':
            return self.init(e, st, fr, e.ty)
        if k == 'CompoundLiteralExpr':
            return [(s, self.read(s, l, e.ty)) for s, l in self.lv(e, st, fr)]
        if k == 'ImplicitValueInitExpr':
            return [(st, ('zero',))]
        if k == 'VAArgExpr':
            return [(st, self.fresh('va'))]
        if k == 'StmtExpr':
            out = []
            for kind, s, v in self.run(e.c[0], st, fr):
                if kind != 'next':
                    raise Unsupported('jump out of expression')
                out.append((s, ('void',)))
            return out
        if k == 'ConstantExpr' or k == 'ParenExpr':
            return self.ev(e.c[0], st, fr)
        raise Unsupported('expression ' + k + ' ' + str(e.op))

    def forky(self, e):
        return any(n.k == 'BinaryOperator' and n.op in ('&&', '||') for n in fe.walk(e))

    def fresh(self, what):
        self.any += 1
        return ('any', what, self.any)

    def binop(self, op, a, b, ptr=(False, False)):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if ptr[0] and not ptr[1] and op in '+-':
            return self.padd(a, b if op == '+' else mul(('int', -1), b))
        if ptr[1] and not ptr[0] and op == '+':
            return self.padd(b, a)
        if a[0] == 'bool' or b[0] == 'bool':
            return ('op', op, a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        if op == '*':
            return mul(a, b)
        if op == '<<' and b[0] == 'int' and 0 <= b[1] < 32:
            return mul(a, ('int', 1 << b[1]))
        if a[0] == 'int' and b[0] == 'int':
            try:
                return ('int', {'/': lambda: int(a[1] / b[1]), '%': lambda: a[1] % b[1], '>>': lambda: a[1] >> b[1], '&': lambda: a[1] & b[1],
                                '|': lambda: a[1] | b[1], '^': lambda: a[1] ^ b[1]}[op]())
            except (ZeroDivisionError, KeyError, ValueError):
                pass
        return ('op', op, a, b)

    # -- calls ------------------------------------------------------------------------
    def argval(self, st, v):
        """What a call is told: arrays are replaced by what they hold."""
        if v[0] == 'addr' and v[1][0] == 'var':
            b, path = v[1], v[2]
            if path and path[-1][0] == 'i':
                if not self.elements:
                    return v
                pre = path[:-1]
                off = path[-1][1]
                cells = []
                for (bb, p), x in st.mem.items():
                    if bb == b and p[:len(pre)] == pre and len(p) > len(pre):
                        if p[len(pre)][0] == 'i':
                            cells.append((((('i', add(p[len(pre)][1], off, -1)),) + p[len(pre) + 1:]), x))
                        else:
                            cells.append((p[len(pre):], x))
                w = st.mem.get((b, pre))
                if w is not None and w[0] == 'out' and not cells:
                    return w if off == ZERO else ('padd', w, off)
                return ('arr', tuple(sorted(cells, key=repr)))
            cells = tuple(sorted(((p[len(path):], x) for (bb, p), x in st.mem.items() if bb == b and p[:len(path)] == path), key=repr))
            return ('ref', cells)
        if v[0] == 'agg':
            return ('agg', tuple((p, self.argval(st, x)) for p, x in v[1]), v[2])
        return v

    def call(self, e, st, fr):
        self.line = (e.file, e.line, self.stack[-1] if self.stack else None)
        name = fe.callee(e)
        if name is None:
            out = []
            for s, f in self.ev(e.c[0], st, fr):
                if f[0] == 'fn' and not self.opaque(f[1]):
                    return self.known(f[1], e, s, fr)
                for s2, args in self.evs(e.c[1:], s, fr):
                    out.append(self.event(s2, ('*', f), args))
            return out
        if name in ('__assert_fail', 'abort', 'exit', '_exit'):
            return []
        p = self.tu.protos.get(name)
        if p is not None and p.noreturn:
            return []
        if name in ('__builtin_va_start', '__builtin_va_end', '__builtin_va_copy', '__builtin_expect') or name.startswith('__builtin_'):
            if name == '__builtin_expect':
                return self.ev(e.c[1], st, fr)
            return [(st, ('void',))]
        return self.known(name, e, st, fr)

    def pointers(self, e):
        """Whether what this points to are pointers."""
        while e.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') and 'void' in (e.ty or ''):
            e = e.c[0]
        return re.match(r'.*\*\s*(\*|\[.*\])$', e.ty or '') is not None

    def known(self, name, e, st, fr):
        out = []
        for s, args in self.evs(e.c[1:], st, fr):
            self.line = (e.file, e.line, self.stack[-1] if self.stack else None)
            self.unit = 0
            if name in ('memcpy', 'memmove') and self.pointers(e.c[1]):
                self.unit = 8       # elements are pointers
            if name in ('fprintf', 'vfprintf', 'printf', 'fputs', 'fputc', 'putc', 'fwrite'):
                out.append(self.emit(name, args, s, fr))
            elif self.opaque(name) or len(self.stack) > 12:
                out.append(self.event(s, name, args))
            else:
                out += self.inline(name, args, s)
        return out

    def inline(self, name, args, st):
        f = self.funcs[name]
        self.depth += 1
        fr = Frame(f, self.depth)
        fr.vars = {}
        n = len(f.params)
        fr.varargs = args[n:]
        self.stack.append(name)
        try:
            for (pn, pty, pid, _), v in zip(f.params, args):
                fr.vars[pid] = '%d:%s' % (self.depth, pn)
                self.write(st, (('var', fr.vars[pid]), ()), v)
            out = []
            for kind, s, v in self.body(f, st, fr):
                if kind == 'return' or kind == 'next':
                    out.append((s, v if v is not None else ('void',)))
                else:
                    raise Unsupported('%s out of %s' % (kind, name))
            if len(out) > self.MAX:
                raise Unsupported('too many paths in ' + name)
            return self.merge(out)
        finally:
            self.stack.pop()

    def body(self, f, st, fr):
        """Body of a function, following jumps to labels further down."""
        out = []
        todo = [(self.run(f.body, st, fr), -1)]
        while todo:
            res, at = todo.pop()
            for kind, s, v in res:
                if kind != 'goto':
                    out.append((kind, s, v)); continue
                i = next((i for i, c in enumerate(f.body.c) if c is not None and c.k == 'LabelStmt' and c.ref == v), None)
                if i is None or i <= at:
                    raise Unsupported('goto')
                todo.append((self.seq(f.body.c[i:], s, fr), i))
        return out

    def merge(self, out):
        """Paths that differ in nothing but what they assumed are one."""
        seen = {}
        res = []
        for s, v in out:
            key = (repr(v), len(s.events), tuple(id(x) for x in s.events))
            o = seen.get(key)
            if o is not None and o.mem == s.mem and self.exact and not self.complementary(o, s):
                res.append((s, v))
                continue
            if o is not None and o.mem == s.mem:
                o.cons = {a: b for a, b in o.cons.items() if s.cons.get(a) == b}
                o.eqs = {a: b for a, b in o.eqs.items() if s.eqs.get(a) == b}
                continue
            seen.setdefault(key, s)
            res.append((s, v))
        return res

    exact = False
    elements = True     # what is stored to each element is remembered

    def complementary(self, a, b):
        """Whether two paths differ in one decision only."""
        d = [k for k in set(a.cons) | set(b.cons) if a.cons.get(k) != b.cons.get(k)]
        return not d and a.eqs == b.eqs or len(d) == 1 and d[0] in a.cons and d[0] in b.cons

    def event(self, st, name, args):
        if not self.elements and name == 'FbleExtendVectorRaw' and len(args) == 3 and args[1][0] == 'addr':
            loc = self.deref(args[1])
            st.mem[loc] = add(self.read(st, loc), ('int', 1))
            st.events.append(('call', name, tuple(args), ('void',), self.line))
            return st, ('void',)
        vals = tuple(self.argval(st, a) for a in args)
        # what is passed by reference may be written
        for a in args:
            if a[0] == 'addr' and a[1][0] == 'var':
                self.clobber(st, a, name, vals)
            elif not self.elements and a[0] == 'addr' and a[2] and a[2][-1][0] == 'f':
                # a part of an object: what the call leaves there is not known
                for k in [k for k in st.mem if k[0] == a[1] and k[1][:len(a[2])] == a[2]]:
                    del st.mem[k]
        res = ('res', st.seq, name)
        st.seq += 1
        st.events.append(('call', name, vals, res, self.line))
        for g, path, label in self.stirs.get(self.called(name), ()):
            self.stir(st, args[g] if isinstance(g, int) else g, path, label)
        if name in self.watch:
            f = self.watch[name]
            st.events.append(('seen', name, res, tuple((k, v) for k, v in st.mem.items() if k[0][0] != 'var' and k[1] and k[1][-1][0] == 'f' and k[1][-1][1].split('.')[-1] in (f if isinstance(f, tuple) else (f,)))))
        return st, res

    stirs = {}          # function -> [(global or argument number, path to what it changes, name for what is there then)]

    def called(self, name):
        if isinstance(name, tuple) and name[0] == '*' and name[1][0] == 'ld' and name[1][2] and name[1][2][-1][0] == 'f':
            return '*' + name[1][2][-1][1]
        return name

    def stir(self, st, g, path, label):
        b, at = (('gl', g), ()) if isinstance(g, str) else self.deref(g)
        for i, f in enumerate(path):
            if f == '*':
                b, at = self.deref(self.read(st, (b, at)))
            else:
                at += (('f', f),)
        if not isinstance(g, str):
            label += '@%d' % self.line[1]   # what each call leaves is another
        for k in [k for k in st.mem if k[0] == b and k[1][:len(at)] == at]:
            del st.mem[k]
        st.mem[(b, at)] = ('sym', label)

    PURE = {'FbleNewStructValue', 'FbleNewListValue', 'FbleCall', 'FbleTailCall', 'FbleNewFuncValue', 'FbleNewLiteralValue', 'strlen', 'strcmp',
            'FbleNewInterpretedFuncValue', 'FbleNewStructValue_', 'FbleNewListValue_', 'FbleFreeVector', 'setrlimit'}

    def clobber(self, st, a, name, vals):
        if self.called(name) in self.PURE or self.called(name) in self.pure:
            return
        b, path = a[1], a[2]
        pre = path[:-1] if path and path[-1][0] == 'i' else path
        low = path[-1][1][1] if name in ('memcpy', 'memmove') and path and path[-1][0] == 'i' and path[-1][1][0] == 'int' else 0     # what lies before it stays
        size = None
        if name in ('memcpy', 'memmove') and self.unit and path and path[-1][0] == 'i' and len(vals) == 3:
            size = add(vals[2], mul(('int', self.unit), path[-1][1]))
        for key in [k for k in st.mem if k[0] == b and k[1][:len(pre)] == pre and len(k[1]) >= len(pre)]:
            at = key[1][len(pre)][1] if len(key[1]) > len(pre) and key[1][len(pre)][0] == 'i' else None
            if at is not None and at[0] == 'int' and at[1] < low:
                continue
            if at is not None and size is not None:
                d = add(mul(('int', self.unit), at), size, -1)
                if d[0] == 'int' and d[1] >= 0:
                    continue        # and what lies beyond
            del st.mem[key]
        st.mem[(b, pre)] = ('out', self.called(name), tuple(v for v in vals if v[0] not in ('arr', 'ref')))

    def emit(self, name, args, st, fr):
        if name in ('fprintf', 'vfprintf', 'printf'):
            if name == 'printf':
                stream, fmt, rest = ('gl', 'stdout'), args[0], args[1:]
            else:
                stream, fmt, rest = args[0], args[1], args[2:]
            if name == 'vfprintf':
                rest = fr.varargs
            if fmt[0] != 'str':
                st.events.append(('emit', stream, (('hole', '?', self.argval(st, fmt)),), self.line))
                return st, ('void',)
            pieces = format_pieces(fmt[1], [self.argval(st, a) for a in rest])
        elif name == 'fputs':
            stream = args[1]
            pieces = format_pieces('%s', [self.argval(st, args[0])])
        elif name == 'fwrite':
            stream = args[3]
            pieces = format_pieces('%s', [self.argval(st, args[0])])
        else:
            stream = args[1]
            pieces = format_pieces('%c', [args[0]])
        st.events.append(('emit', stream, tuple(pieces), self.line))
        return st, ('void',)

    # -- statements -----------------------------------------------------------------------
    def run(self, n, st, fr):
        """Statement -> [(kind, state, value)]; kinds next, break, continue, return, goto."""
        self.steps += 1
        if n is None or n.k == 'NullStmt':
            return [('next', st, None)]
        k = n.k
        if k == 'CompoundStmt':
            return self.seq(n.c, st, fr)
        if k == 'DeclStmt':
            sts = [st]
            for d in n.c:
                if d is None or d.k != 'VarDecl':
                    continue
                nm = '%d:%s' % (fr.depth, d.name) + ('' if d.id is None else '#' + d.id)
                fr.vars[d.id] = nm
                nxt = []
                for s in sts:
                    loc = (('var', nm), ())
                    for key in [q for q in s.mem if q[0] == loc[0]]:
                        del s.mem[key]
                    ini = [c for c in d.c if c is not None and c.k not in ('FullComment',)]
                    isvla = '[' in (d.ty or '') and not re.search(r'\[\d+\]', d.ty or '')
                    ie = ini[-1] if ini and (not isvla or ini[-1].k in ('InitListExpr', 'StringLiteral')) else None
                    if ie is not None and ie.k == 'StringLiteral':
                        s.mem[loc] = ('str', cstr(ie.val)); nxt.append(s); continue
                    if ie is None:
                        nxt.append(s); continue
                    for s2, v in self.init(ie, s, fr, d.ty):
                        self.write(s2, loc, v)
                        nxt.append(s2)
                sts = nxt
            return [('next', s, None) for s in sts]
        if k == 'IfStmt':
            c = [x for x in n.c]
            out = []
            for s, v in self.cond(c[0], st, fr):
                if v:
                    out += self.run(c[1], s, fr)
                elif len(c) > 2:
                    out += self.run(c[2], s, fr)
                else:
                    out.append(('next', s, None))
            return out
        if k == 'ReturnStmt':
            if not n.c:
                return [('return', st, None)]
            return [('return', s, v) for s, v in self.ev(n.c[0], st, fr)]
        if k == 'BreakStmt':
            return [('break', st, None)]
        if k == 'ContinueStmt':
            return [('continue', st, None)]
        if k == 'GotoStmt':
            return [('goto', st, n.ref)]
        if k == 'LabelStmt':
            return self.run(n.c[0], st, fr)
        if k == 'SwitchStmt':
            return self.switch(n, st, fr)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return self.loop(n, st, fr)
        if k in ('CaseStmt', 'DefaultStmt'):
            return self.run(n.c[-1], st, fr)
        if k == 'AttributedStmt':
            return self.run(n.c[-1], st, fr)
        return [('next', s, None) for s, v in self.ev(n, st, fr)]

    def seq(self, stmts, st, fr):
        cur = [st]
        out = []
        for c in stmts:
            nxt = []
            for s in cur:
                for kind, s2, v in self.run(c, s, fr):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            if len(nxt) > 1:
                nxt = [s for s, _ in self.merge([(s, ('void',)) for s in nxt])]
            cur = nxt
            if len(cur) > self.MAX:
                raise Unsupported('too many paths')
        return out + [('next', s, None) for s in cur]

    def switch(self, n, st, fr):
        body = n.c[-1]
        flat = []       # (labels, stmt)

        def put(x, labels):
            if x is not None and x.k == 'CaseStmt':
                put(x.c[-1], labels + [x.c[0]])
            elif x is not None and x.k == 'DefaultStmt':
                put(x.c[-1], labels + ['default'])
            else:
                flat.append((labels, x))
        for c in (body.c if body.k == 'CompoundStmt' else [body]):
            put(c, [])
        out = []
        for s0, v in self.ev(n.c[0], st, fr):
            v = self.simp(s0, v)
            entries = []
            default = None
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l == 'default':
                        default = i
                    else:
                        for _, lv in self.ev(l, State(), fr):
                            entries.append((lv, i))
            rest = s0
            starts = []
            for lv, i in entries:
                c = self.compare('==', v, lv)
                hit = None
                for s, b in self.fork(rest, c):
                    if b:
                        starts.append((s, i))
                    else:
                        hit = s
                rest = hit
                if rest is None:
                    break
            if rest is not None and not (default is None and self.exhaustive(n, [lv for lv, _ in entries])):
                starts.append((rest, default))
            for s, i in starts:
                if i is None:
                    out.append(('next', s, None)); continue
                for kind, s2, r in self.seq([x for _, x in flat[i:]], s, fr):
                    out.append(('next', s2, None) if kind == 'break' else (kind, s2, r))
        return out

    def exhaustive(self, n, vals):
        """Every constant of the enumeration switched on has a case."""
        ty = None
        for e in fe.walk(n.c[0]):
            if e.ty in self.tu.enums or (e.x in self.tu.enums):
                ty = e.ty if e.ty in self.tu.enums else e.x
                break
        if ty is None:
            return False
        have = {v[1] for v in vals if v[0] == 'int'}
        return all(v in have for _, v in self.tu.enums[ty])

    def assigned(self, nodes, fr):
        out = set()
        for n in nodes:
            if n is None:
                continue
            for x in fe.walk(n):
                t = None
                if x.k == 'BinaryOperator' and x.op == '=' or x.k == 'CompoundAssignOperator':
                    t = x.c[0]
                elif x.k == 'UnaryOperator' and x.op in ('++', '--'):
                    t = x.c[0]
                if t is not None and t.k == 'DeclRefExpr' and t.ref in fr.vars:
                    out.add(fr.vars[t.ref])
        return out

    def loop(self, n, st, fr):
        out = []
        pre = [st]
        if n.k == 'ForStmt':
            init, _, cond, inc, body = n.c
            if init is not None:
                pre = [s for kind, s, v in self.run(init, st, fr)]
        elif n.k == 'WhileStmt':
            cond, body, inc = n.c[0], n.c[-1], None
        else:
            body, cond, inc = n.c[0], n.c[1], None
        for s in pre:
            out += self.loop1(n, s, cond, inc, body, fr)
        return out

    def iterate(self, n, h, cond, inc, body, fr):
        """One iteration from head state h: (continuing, leaving by the
        condition, other exits)."""
        go, stop, exits = [], [], []
        starts = [(h, True)]
        if cond is not None and n.k != 'DoStmt':
            starts = self.cond(cond, h, fr)
        ends = []
        for s, v in starts:
            if not v:
                stop.append(s); continue
            for kind, s2, r in self.run(body, s, fr):
                if kind in ('next', 'continue'):
                    for s3 in ([x for x, _ in self.ev(inc, s2, fr)] if inc is not None else [s2]):
                        if n.k == 'DoStmt':
                            for s4, v4 in self.cond(cond, s3, fr):
                                (go if v4 else stop).append(s4)
                        else:
                            go.append(s3)
                elif kind == 'break':
                    exits.append(('next', s2, None))
                else:
                    exits.append((kind, s2, r))
        return go, stop, exits

    def carried(self, st, go, skip):
        """Places besides those assigned by name that rounds change."""
        locs = []
        for s in go:
            for key, x in s.mem.items():
                if key in skip or key in locs or key[0][0] != 'var' or any(t[0] == 'i' for t in key[1]):
                    continue
                if key in st.mem:
                    if st.mem[key] != x:
                        locs.append(key)
                elif any(k[0] == key[0] for k in st.mem) and key[1]:
                    whole = any(k[0] == key[0] and k[1] == key[1][:len(k[1])] for k in st.mem)
                    if whole and self.read(st, key) != x:
                        locs.append(key)
        # a part of something carried as a whole
        return [k for k in locs if not any(o != k and o[0] == k[0] and o[1] == k[1][:len(o[1])] for o in locs)]

    def loop1(self, n, st, cond, inc, body, fr):
        names = self.assigned([cond, inc, body], fr)
        scal = [v for v in names if not any(k[0] == ('var', v) and k[1] for k in st.mem)]
        # what is declared inside the loop is not carried around it
        scal = [v for v in scal if (('var', v), ()) in st.mem]
        keys = {v: (('var', v), ()) for v in scal}
        sv = self.steps
        if not self.elements:
            head = st.copy()
            head.events = []
            for v in scal:
                head.mem[keys[v]] = ('h', v, self.any)
            self.any += 1
            while True:
                go, stop, _ = self.iterate(n, head.copy(), cond, inc, body, fr)
                more = self.carried(head, go, set(keys.values()))
                if not more:
                    break
                for k in more:
                    v = k[0][1] + ''.join('.' + x[1] for x in k[1])
                    keys[v] = k
                    scal.append(v)
                    for o in [o for o in head.mem if o[0] == k[0] and o[1][:len(k[1])] == k[1]]:
                        del head.mem[o]
                    head.mem[k] = ('h', v, self.any)
                self.any += 1
        kept = []
        if not self.elements:
            kept = [k for k in st.mem if k[0][0] != 'var' and not (k[0][0] == 'gl' and self.fixed.get(k[0][1]))
                    and not any(t[0] == 'i' for t in k[1]) and any(s.mem.get(k) != st.mem[k] for s in go)]
        head = st.copy()
        head.events = []
        for k in kept:
            head.mem.pop(k, None)       # an earlier round may have changed it
        hs = {}
        init = {}
        for v in scal:
            hs[v] = ('h', v, self.any)
            init[v] = st.mem[keys[v]] if self.elements else self.read(st, keys[v])
            if init[v][0] == 'undef' or any(o[0] == keys[v][0] and len(o[1]) > len(keys[v][1]) and o[1][:len(keys[v][1])] == keys[v][1] for o in st.mem):
                sub = tuple(sorted(((o[1][len(keys[v][1]):], x) for o, x in st.mem.items() if o[0] == keys[v][0] and len(o[1]) > len(keys[v][1]) and o[1][:len(keys[v][1])] == keys[v][1]), key=repr))
                if sub:
                    init[v] = ('agg', sub, st.mem.get(keys[v], ('undef', keys[v][0][1], keys[v][1])))
        for v in scal:
            self.forget(head, keys[v])
            head.mem[keys[v]] = hs[v]
        self.any += 1
        go, stop, _ = self.iterate(n, head.copy(), cond, inc, body, fr)
        # first pass: what each variable does around the loop
        val = {}
        direction = None; count = None; after = {}
        for v in scal:
            h = hs[v]
            ends = {self.end(s, keys[v]) for s in go}
            if ends <= {h}:
                val[v] = init[v]; after[v] = init[v]
                continue
            val[v] = None
            isptr = ends == {('padd', h, ('int', 1))}
            if ends == {add(h, ('int', 1))} or isptr:
                # ascending: find its bound among the conditions of continuing paths
                N = None
                for s in go[:1]:
                    for at, b in s.cons.items():
                        if at in st.cons:
                            continue
                        if at[0] == 'lt' and at[1] == h and b:
                            N = at[2]
                        elif at[0] == 'eq' and h in at[1:] and not b:
                            N = at[1] if at[2] == h else at[2]
                        elif at[0] == 'nz' and not b and False:
                            pass
                if N is not None and not isptr and init[v] == ZERO and not mentions(N, set(hs.values())):
                    val[v] = ('each', N); direction = 'up'; count = N; after[v] = N
                elif N is not None and isptr:
                    k = self.pdiff(N, init[v])
                    if k is not None:
                        val[v] = self.padd(init[v], ('each', k)); direction = 'up'; count = k; after[v] = N
            elif ends == {add(h, ('int', -1))}:
                dec = False
                for s in go[:1]:
                    for at, b in s.cons.items():
                        if at == ('nz', h) and b or (at[0] == 'lt' and at[1] == ZERO and at[2] == h and b):
                            dec = True
                if dec and not mentions(init[v], set(hs.values())):
                    N = init[v]
                    val[v] = add(('each', N), ('int', 1)); direction = 'down'; count = N; after[v] = ZERO
            elif len(ends) == 1:
                t, = ends
                if t is not None and t[0] == 'ld' and t[1] == h and len(t[2]) == 1 and t[2][0][0] == 'f' and (self.elements or self.ends_at_null(go, h)):
                    val[v] = ('node', init[v], t[2][0][1]); direction = 'list'; count = init[v]; after[v] = ZERO
        if not self.elements and direction == 'up':
            # what takes one step in every round of a counted loop
            for v in scal:
                if val[v] is None and {self.end(s, keys[v]) for s in go} == {add(hs[v], ('int', 1))} and init[v][0] == 'int':
                    val[v] = add(init[v], ('each', count)); after[v] = add(init[v], count)
                elif val[v] is None and {self.end(s, keys[v]) for s in go} == {('padd', hs[v], ('int', 1))}:
                    val[v] = self.padd(init[v], ('each', count)); after[v] = self.padd(init[v], count)
        self.any += 1
        for v in scal:
            if val[v] is None:
                val[v] = ('any', v, self.any)
                after[v] = ('any', v + "'", self.any)
        head = st.copy()
        head.events = []
        grown = {}
        for k in kept:
            head.mem.pop(k, None)
            was = self.read(head, k)
            if direction == 'up' and {self.read(s, k) for s in go} == {add(was, ('int', 1))}:
                # one more in every round
                head.mem[k] = add(st.mem[k], ('each', count))
                grown[k] = add(st.mem[k], count)
        for v in scal:
            self.store(head, keys[v], val[v])
            if val[v][0] == 'node':
                self.assume(head, ('nz', val[v]), True)
            if val[v][0] == 'each':
                self.assume(head, ('lt', val[v], count), True)
                self.assume(head, ('eq',) + tuple(sorted((val[v], count), key=repr)), False)
            if direction == 'down' and val[v][0] == 'lin':
                self.assume(head, ('nz', val[v]), True)
        go, stop, exits = self.iterate(n, head.copy(), cond, inc, body, fr)
        first = {v: (self.end(head, keys[v]), init[v], after[v], keys[v]) for v in scal}
        apart = not self.elements and direction in ('up', 'down') and bool(stop)
        rep = Rep(count, direction, go, head, first, () if apart else stop)
        left = Rep(count, direction, go, head, first, stop, True)
        out = []
        if apart:
            # ended by another condition before its count
            exits = list(exits) + [('next', s, None) for s in stop]
        # leaving by the condition
        base = st.copy()
        for v in scal:
            self.store(base, keys[v], after[v])
        carried = set(keys.values())
        for s in go:
            for key, x in s.mem.items():
                if key in carried or key[0][0] == 'var' and key[0][1] in scal and not key[1]:
                    continue
                if key[0][0] == 'gl' and self.fixed.get(key[0][1]):
                    continue
                if head.mem.get(key) != x:
                    if not self.elements and any(key[0] == c[0] and key[1][:len(c[1])] == c[1] for c in carried):
                        continue
                    if any(t[0] == 'i' and mentions(t[1], {('each', count)}) for t in key[1]) and direction in ('up', 'down'):
                        if self.elements:
                            base.mem[key] = x
                        else:
                            base.mem.pop(key, None)
                    else:
                        base.mem[key] = grown[key] if key in grown else self.fresh('loop')
        base.events.append(rep)
        if not self.elements:
            base.seq = max([base.seq] + [s.seq for s in go])
        always = cond is None or (cond is not None and self.strip(cond).k in ('IntegerLiteral',) and int(self.strip(cond).val) != 0)
        if not always and (stop or direction):
            out.append(('next', base, None))
        for kind, s, r in exits:
            s2 = s.copy()
            s2.events = st.events + [left] + s.events
            out.append((kind, s2, r))
        return out

    def ends_at_null(self, go, h):
        return all(any((k == ('nz', h) and b) or (k[0] == 'eq' and not b and h in k[1:] and ZERO in k[1:]) for k, b in s.cons.items()) for s in go)

    def forget(self, st, key):
        if not self.elements:
            for o in [o for o in st.mem if o[0] == key[0] and o[1][:len(key[1])] == key[1]]:
                del st.mem[o]

    def store(self, st, key, v):
        self.forget(st, key)
        if not self.elements and v[0] == 'agg':
            for p, x in v[1]:
                st.mem[(key[0], key[1] + p)] = x
            if v[2] is not None and v[2][0] != 'undef':
                st.mem[key] = v[2]
            return
        st.mem[key] = v

    def end(self, st, key):
        """What a carried place holds."""
        if self.elements:
            return st.mem.get(key)
        sub = tuple(sorted(((o[1][len(key[1]):], x) for o, x in st.mem.items() if o[0] == key[0] and len(o[1]) > len(key[1]) and o[1][:len(key[1])] == key[1]), key=repr))
        v = st.mem.get(key)
        if sub:
            return ('agg', sub, v)
        return v if v is not None else self.read(st, key)

    def pdiff(self, a, b):
        if a[0] == 'padd' and a[1] == b:
            return a[2]
        if a[0] == 'addr' and b[0] == 'addr' and a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and b[2]:
            return add(a[2][-1][1], b[2][-1][1], -1)
        if a[0] == 'padd' and b[0] == 'padd' and a[1] == b[1]:
            return add(a[2], b[2], -1)
        return None

    # -- entry -----------------------------------------------------------------------------------
    def function(self, name, args=None):
        f = self.funcs[name]
        if args is None:
            args = tuple(('sym', p[0]) for p in f.params)
        st = State()
        self.depth += 1
        fr = Frame(f, self.depth)
        fr.vars = {}
        self.stack = [name]
        for (pn, pty, pid, _), v in zip(f.params, args):
            fr.vars[pid] = '%d:%s' % (self.depth, pn)
            self.write(st, (('var', fr.vars[pid]), ()), v)
        self.fr = fr
        return self.body(f, st, fr)


def mentions(t, what):
    if t in what:
        return True
    if isinstance(t, tuple):
        return any(isinstance(x, tuple) and mentions(x, what) for x in t)
    return False


def subst(t, m):
    """Replaces subterms, innermost last."""
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r != t:
        if r[0] == 'lin':
            acc = ('int', r[1])
            for x, k in r[2]:
                acc = add(acc, mul(('int', k), x))
            r = acc
        return m.get(r, r)
    return r
