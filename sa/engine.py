"""Path-sensitive typestate and ownership dataflow over the typed syntax tree.

A state is a finite abstract heap: locations -> abstract values, objects with
a count of the references the analysed function is answerable for, facts about
symbols, and monitor flags.  Functions are walked statement by statement over
sets of such states; states that are equal up to renaming are merged at every
join, loops run to a fixed point, static non-recursive helpers are analysed in
line, everything else through contracts (which are themselves verified against
the bodies).

Arrays are followed through one arbitrary but fixed index K: every integer is
classified as below / equal / above K, and only element K of each array is
tracked; the others are "don't care".  As K is arbitrary, what holds for
element K holds for all.  No solver is involved.
"""
import re, sys
from fe import N, Broken, callee, walk

sys.setrecursionlimit(20000)

NULL = ('i', 0)
DC = ('d',)
UN = ('u',)
L, E, G = 1, 2, 4
DCLOC = (('G', '~'), ('[*]',))
CHARP = ('ptr', ('int', 'char'))


class SV(object):
    """A struct value: leaf path -> value."""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return 'SV(%r)' % (self.m,)


class Sym(object):
    """Facts about a symbol (immutable)."""
    __slots__ = ('ty', 'own', 'neq', 'mask', 'b', 'esp', 'dc', 'k')

    def __init__(self, ty, own=0, neq=frozenset(), mask=7, b=True, esp=None, dc=False):
        self.ty = ty; self.own = own; self.neq = neq; self.mask = mask; self.b = b; self.esp = esp; self.dc = dc
        self.k = None

    def upd(self, **kw):
        s = Sym(self.ty, self.own, self.neq, self.mask, self.b, self.esp, self.dc)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        k = self.k
        if k is None:
            k = self.k = (self.ty, self.own, tuple(sorted(self.neq, key=repr)), self.mask, self.b, self.esp, self.dc)
        return k


class Obj(object):
    """A root (immutable)."""
    __slots__ = ('kind', 'rec', 'own', 'b', 'dead', 'esp', 'dc', 'origin', 'stale', 'size', 'tagrec', 'k')

    def __init__(self, kind, rec=None, own=0, b=False, dead=None, esp=None, dc=False, origin=None, stale=False, size=None, tagrec=None):
        self.kind = kind; self.rec = rec; self.own = own; self.b = b; self.dead = dead
        self.esp = esp; self.dc = dc; self.origin = origin; self.stale = stale; self.size = size
        self.tagrec = tagrec
        self.k = None

    def upd(self, **kw):
        o = Obj(self.kind, self.rec, self.own, self.b, self.dead, self.esp, self.dc, self.origin, self.stale, self.size, self.tagrec)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def key(self):
        k = self.k
        if k is None:
            k = self.k = (self.kind, self.rec, self.own, self.b, self.dead, self.esp, self.dc, self.stale, self.tagrec)
        return k


class State(object):
    __slots__ = ('store', 'objs', 'syms', 'flags', 'trail', 'kmin', 'kmax', 'inc', 'memo', 'edges', 'dead')

    def __init__(self):
        self.store = {}; self.objs = {}; self.syms = {}; self.flags = {}; self.trail = None
        self.kmin = 0; self.kmax = None; self.inc = frozenset(); self.memo = {}; self.edges = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.objs = dict(self.objs); s.syms = dict(self.syms); s.flags = dict(self.flags)
        s.trail = self.trail; s.kmin = self.kmin; s.kmax = self.kmax; s.inc = self.inc; s.memo = dict(self.memo)
        s.edges = self.edges
        return s

    def note(self, line, text):
        self.trail = (self.trail, line, text)

    def path(self, limit=14):
        out = []
        t = self.trail
        while t is not None:
            out.append('%s:%s' % (t[1], t[2])); t = t[0]
        out.reverse()
        if len(out) > limit:
            out = out[:4] + ['...'] + out[-(limit - 5):]
        return ' > '.join(out)


class Out(object):
    __slots__ = ('n', 'b', 'c', 'r')

    def __init__(self, n=None):
        self.n = n if n is not None else []; self.b = []; self.c = []; self.r = []


class Budget(Exception):
    pass


_ptr_re = re.compile(r'\s*\*\s*(?:const|restrict|volatile)?\s*$')


class Types(object):
    """Parses clang's type strings for one translation unit."""

    def __init__(self, tu):
        self.tu = tu
        self.cache = {}

    def parse(self, s):
        """-> ('ptr',T) | ('rec',name) | ('arr',T,n) | ('int',name) | ('enum',name) | ('void',) | ('fn',) | ('flt',)"""
        if s is None:
            return ('void',)
        t = self.cache.get(s)
        if t is None:
            t = self._parse(s)
            self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        if '(*)' in s or '(* ' in s or s.endswith(')'):
            if '(*)' in s:
                return ('ptr', ('fn',))
            return ('fn',)
        m = re.match(r'^([^\[]*?)\s*\[([^\]]*)\]((?:\[[^\]]*\])*)$', s)
        if m:
            return ('arr', self._parse(m.group(1) + m.group(3)), int(m.group(2)) if m.group(2).isdigit() else None)
        m = _ptr_re.search(s)
        if m:
            return ('ptr', self._parse(s[:m.start()]))
        s = re.sub(r'\b(const|volatile|restrict|register)\b', '', s).strip()
        s = re.sub(r'\s+', ' ', s)
        if s == 'void':
            return ('void',)
        if s in ('float', 'double', 'long double'):
            return ('flt',)
        if s.startswith('enum '):
            return ('enum', s)
        rec = self.tu.rec_by_name.get(s)
        if rec is None and not s.startswith(('struct ', 'union ')):
            rec = self.tu.rec_by_name.get('struct ' + s) or self.tu.rec_by_name.get('union ' + s)
        if rec is not None:
            return ('rec', self.recname(s))
        if s.startswith(('struct ', 'union ')):
            return ('rec', self.recname(s))
        if s in self.tu.enums:
            return ('enum', s)
        if s in self.tu.typedefs:
            q, d = self.tu.typedefs[s]
            if d != s and d:
                return self._parse(d)
            if q != s:
                return self._parse(q)
        return ('int', s)

    def recname(self, s):
        s = re.sub(r'^(struct|union) ', '', s)
        return s

    def record(self, name):
        r = self.tu.rec_by_name
        x = r.get(name)
        if x is None or not x.complete:
            y = r.get('struct ' + name) or r.get('union ' + name)
            if y is not None:
                x = y
        return x


class Engine(object):
    MAXSTATES = 240
    MAXITER = 60
    MAXSTEPS = 600000

    def __init__(self, tu, spec):
        self.tu = tu
        self.spec = spec            # contracts etc.
        self.T = Types(tu)
        self.nid = 0
        self.violations = {}
        self.stats = {'stmts': 0, 'calls': 0, 'paths': 0, 'joins': 0, 'capped': 0, 'derefs': 0, 'releases': 0,
                      'acquires': 0, 'exits': 0, 'tagchecks': 0, 'loads': 0, 'inlined': set(), 'unknown': set(), 'contracts': set()}
        self.depth = 0
        self.stack = []             # inline call stack of function names
        self.cur = None             # root function
        self.hooks = []             # monitors
        self.leafcache = {}
        self.recursive = self._recursive()
        self.loopstores = []
        self.callcache = {}
        self.ltypes = {}
        self.vsp = None
        self.gotos = None
        self.cur_name = None
        self.gcache = {}
        self.gmod = None
        self.keep = []
        self.rcache = {}
        self.repmode = False        # tell iterations for element K from the others
        self.unkloop = 0            # > 0 inside a loop whose elements cannot be told apart
        self.nonrep = 0             # > 0 inside an iteration for another element
        self.idxcache = {}

    # -- call graph ----------------------------------------------------------
    def _recursive(self):
        g = {}
        for f in self.tu.functions.values():
            if not f.body or not f.file or f.file.startswith('/'):
                continue
            g[f.name] = {callee(n) for n in walk(f.body) if n.k == 'CallExpr'} & set(self.tu.functions)
        rec = set()
        for f in g:
            seen, st = set(), list(g[f])
            while st:
                x = st.pop()
                if x in seen or self.spec.handler(x):
                    continue     # what has a contract is not entered
                seen.add(x)
                st.extend(g.get(x, ()))
            if f in seen:
                rec.add(f)
        self.graph = g
        return rec

    # -- reporting -----------------------------------------------------------
    def viol(self, st, rule, node, msg, key=None):
        if st.flags.get('mute'):
            return
        if rule == 'null-use' and st.flags.get('rep') and any(getattr(h, 'rep', False) for h in self.hooks):
            self.viol(st, 'accepted-after-error', node, 'goes on, after an error has been reported, to use what is absent because of it', key='goes on')
        file = (node.file if node is not None else None) or (self.cur.file if self.cur else '?')
        line = node.line if node is not None else 0
        fn = self.stack[-1] if self.stack else '?'
        k = (rule, file, line, key or msg)
        if k not in self.violations:
            self.violations[k] = {'rule': rule, 'file': file, 'line': line, 'function': fn, 'root': self.cur.name if self.cur else '?',
                                  'msg': msg, 'path': st.path()}

    # -- symbols and objects ---------------------------------------------------
    def fresh(self):
        self.nid += 1
        return self.nid

    def newsym(self, st, ty, **kw):
        i = self.fresh()
        st.syms[i] = Sym(ty, **kw)
        return ('s', i, 0)

    def newobj(self, st, kind, **kw):
        i = self.fresh()
        st.objs[i] = Obj(kind, **kw)
        return i

    def subst(self, st, symid, val):
        """Replace symbol by value everywhere."""
        store = st.store
        for loc, v in store.items():
            if type(v) is tuple and v[0] == 's' and v[1] == symid:
                store[loc] = self.shift(val, v[2])
        # pointers holding index expressions / roots are rare: handle indexes
        st.syms.pop(symid, None)
        for k in list(st.memo):
            if k[0] == 'rev':
                mv = st.memo[k]
                if any(x[0] == 's' and x[1] == symid for x in mv):
                    st.memo[k] = tuple(self.shift(val, x[2]) if x[0] == 's' and x[1] == symid else x for x in mv)
            if any(type(x) is tuple and len(x) == 3 and x[0] == 's' and x[1] == symid for x in k):
                mv = st.memo.pop(k)
                if k[0] in ('<', '=='):
                    nk = (k[0],) + tuple(self.shift(val, x[2]) if type(x) is tuple and x[0] == 's' and x[1] == symid else x for x in k[1:])
                    if all(type(x) is tuple and x[0] in ('s', 'i') for x in nk[1:]) and any(x[0] == 's' for x in nk[1:]):
                        if nk[0] == '==':
                            nk = ('==',) + tuple(sorted(nk[1:], key=repr))
                        st.memo.setdefault(nk, mv)
        st.flags.setdefault('subst', {})
        m = dict(st.flags['subst'])
        m[symid] = val
        st.flags['subst'] = m

    def cur_val(self, st, v):
        """Resolve a value read earlier through substitutions made since."""
        m = st.flags.get('subst')
        if not m:
            return v
        if isinstance(v, SV):
            return SV({p: self.cur_val(st, x) for p, x in v.m.items()})
        n = 0
        while v[0] == 's' and v[1] in m:
            v = self.shift(m[v[1]], v[2])
            n += 1
            if n > 50:
                break
        if v[0] == 'p':
            root, path = v[1]
            if any(type(x) is tuple for x in path):
                path = tuple(('#', self.cur_val(st, x[1])) if type(x) is tuple and x[0] == '#' else x for x in path)
                v = ('p', (root, path))
        return v

    def shift(self, v, off):
        if off == 0:
            return v
        if v[0] == 'i':
            return ('i', v[1] + off)
        if v[0] == 's':
            return ('s', v[1], v[2] + off)
        return DC

    # -- type helpers ------------------------------------------------------------
    def leaves(self, recname):
        """[(path, type)] of scalar leaves of a record ('_base' transparent)."""
        r = self.leafcache.get(recname)
        if r is not None:
            return r
        out = []
        rec = self.T.record(recname)
        if rec is not None:
            for fname, fty, _ in rec.fields:
                t = self.T.parse(fty)
                if fname == '_base':
                    out.extend(self.leaves(t[1]))
                elif t[0] == 'rec':
                    for p, tt in self.leaves(t[1]):
                        out.append(((recname + '.' + fname,) + p, tt))
                elif t[0] == 'arr':
                    continue
                else:
                    out.append(((recname + '.' + fname,), t))
        self.leafcache[recname] = out
        return out

    def isrec(self, ty):
        t = self.T.parse(ty)
        return t[1] if t[0] == 'rec' else None

    # -- K classification -----------------------------------------------------------
    def kmask(self, st, v):
        """mask of possible classes of int value v relative to K."""
        if v[0] == 'i':
            c = v[1]
            if c < 0:
                return L
            m = 0
            lo, hi = st.kmin, st.kmax
            if hi is None or c < hi:
                m |= L
            if c >= lo and (hi is None or c <= hi):
                m |= E
            if c > lo:
                m |= G
            return m
        if v[0] == 's':
            s = st.syms.get(v[1])
            if s is None:
                return 7
            m = s.mask
            off = v[2]
            while off > 0:
                nm = 0
                if m & L: nm |= L | E
                if m & E: nm |= G
                if m & G: nm |= G
                m = nm; off -= 1
            while off < 0:
                nm = 0
                if m & L: nm |= L
                if m & E: nm |= L
                if m & G: nm |= E | G
                m = nm; off += 1
            return m
        return 7

    def krefine(self, st, v, want):
        """Refine st so that class(v) in want; None if infeasible. Mutates st."""
        m = self.kmask(st, v) & want
        if not m:
            return None
        if v[0] == 'i':
            c = v[1]
            if c < 0:
                return st
            k0 = (st.kmin, st.kmax)
            if not self.kbound(st, c, m):
                return None
            if k0 != (st.kmin, st.kmax) and not self.propagate(st):
                return None
            return st
        if v[0] == 's' and v[1] in st.syms:
            s = st.syms[v[1]]
            off = v[2]
            base = self.kbase(s.mask, off, m)
            if not base:
                return None
            # when an offset makes the class ambiguous, re-base the symbol so
            # the refinement is kept exactly
            if off != 0:
                x = 0
                for b in (L, E, G):
                    if base & b:
                        x |= self.kshift(b, off)
                if x & ~m:
                    n = self.newsym(st, s.ty, mask=m, neq=frozenset())
                    self.subst(st, v[1], ('s', n[1], -off))
                    return st if self.propagate(st) else None
            if base != s.mask:
                st.syms[v[1]] = s.upd(mask=base)
                if not self.propagate(st):
                    return None
            return st
        return st

    def kshift(self, m, off):
        while off > 0:
            m = (L | E if m & L else 0) | (G if m & (E | G) else 0); off -= 1
        while off < 0:
            m = (L if m & (L | E) else 0) | (E | G if m & G else 0); off += 1
        return m

    def kbase(self, mask, off, want):
        """Classes of the base symbol that can lead to `want` after the offset."""
        base = 0
        for b in (L, E, G):
            if mask & b and self.kshift(b, off) & want:
                base |= b
        return base

    def project(self, ma, mb, val):
        na = nb = 0
        for a in (L, E, G):
            if ma & a:
                if val:
                    ok = mb if a == L else mb & G
                else:
                    ok = mb & L if a == L else mb & (L | E) if a == E else mb
                if ok:
                    na |= a; nb |= ok
        return na, nb

    def propagate(self, st):
        """Spread what is known of the classes through the recorded
        comparisons. False if that shows the state to be impossible."""
        if not self.feasible(st):
            return False
        again = True
        while again:
            again = False
            for key, val in st.memo.items():
                if key[0] != '<':
                    continue
                a, b = key[1], key[2]
                ma, mb = self.kmask(st, a), self.kmask(st, b)
                na, nb = self.project(ma, mb, val)
                if not na or not nb:
                    return False
                for v, o, w in ((a, ma, na), (b, mb, nb)):
                    if o != w and v[0] == 's' and v[1] in st.syms:
                        sy = st.syms[v[1]]
                        base = self.kbase(sy.mask, v[2], w)
                        if not base:
                            return False
                        if base != sy.mask:
                            st.syms[v[1]] = sy.upd(mask=base)
                            again = True
                    elif o != w and v[0] == 'i':
                        k0 = (st.kmin, st.kmax)
                        if not self.kbound(st, v[1], w):
                            return False
                        if k0 != (st.kmin, st.kmax):
                            again = True
            if again and not self.feasible(st):
                return False
        return True

    def kbound(self, st, c, m):
        lo, hi = st.kmin, st.kmax
        if m == E:
            lo = max(lo, c); hi = c if hi is None else min(hi, c)
        elif m == L:
            lo = max(lo, c + 1)
        elif m == G:
            hi = c - 1 if hi is None else min(hi, c - 1)
        elif m == L | E:
            lo = max(lo, c)
        elif m == E | G:
            hi = c if hi is None else min(hi, c)
        if hi is not None and lo > hi:
            return False
        st.kmin, st.kmax = lo, hi
        return True

    def feasible(self, st):
        if st.kmax is None:
            return True
        for i, sy in list(st.syms.items()):
            if sy.mask == 7 or sy.ty[0] != 'int':
                continue
            m = sy.mask
            if st.kmax == 0 and m & L and 'unsigned' in sy.ty[1]:
                m &= ~L
            if m & E and st.kmin == st.kmax and st.kmin in sy.neq:
                m &= ~E
            if st.kmin == st.kmax == 1 and m & L and 0 in sy.neq and 'unsigned' in sy.ty[1]:
                m &= ~L
            if m == 0:
                return False
            if m != sy.mask:
                st.syms[i] = sy.upd(mask=m)
        return True

    def ksplit(self, st, v):
        """[(class, state)] for each feasible class of v."""
        m = self.kmask(st, v)
        out = []
        cl = [c for c in (L, E, G) if m & c]
        for i, c in enumerate(cl):
            s = st if len(cl) == 1 else st.copy()
            s = self.krefine(s, v, c)
            if s is not None:
                out.append((c, s))
        return out

    # -- locations ------------------------------------------------------------
    def norm_loc(self, st, loc, elemty=None):
        """Canonicalise index path elements. -> [(st, loc)]; index elements
        become '[K]' or '[*]'."""
        root, path = loc
        for i, x in enumerate(path):
            if type(x) is tuple:
                v = self.cur_val(st, x[1])
                rv = st.memo.get(('rev', ('s', v[1], 0))) if v[0] == 's' else None
                if rv is not None:
                    size, j = self.cur_val(st, rv[0]), self.shift(self.cur_val(st, rv[1]), -v[2])
                    if (j[0] != 'i' or j[1] >= 0) and all(y[0] == 'i' or y[0] == 's' and y[1] in st.syms for y in (size, j)):
                        res = []
                        for c, s in self.ksplit(st, size):
                            res.extend(self.norm_loc(s, (root, path[:i] + (('#', j) if c == G else '[*]',) + path[i + 1:])))
                        return res
                    v = DC
                if v[0] in ('d', 'u', 'p'):
                    return [(st, (root, path[:i] + ('[*]',) + tuple('.' for _ in ())))] if i == len(path) - 1 else \
                        self.norm_loc(st, (root, path[:i] + ('[*]',) + path[i + 1:]))
                res = []
                for c, s in self.ksplit(st, v):
                    res.extend(self.norm_loc(s, (root, path[:i] + ('[K]' if c == E else '[*]',) + path[i + 1:])))
                return res
        return [(st, loc)]

    def is_dc_loc(self, st, loc):
        o = st.objs.get(loc[0])
        return (o is not None and o.dc) or '[*]' in loc[1]

    def check_alive(self, st, loc, node, what='used'):
        o = st.objs.get(loc[0])
        if o is None or o.dc:
            return True
        if o.dead:
            self.viol(st, 'use-after-release', node, 'memory %s after it was released at line %s (obtained at %s)' % (what, o.dead, o.origin),
                      key='uar %s' % (o.origin,))
            return False
        return True

    # ownership specification of a cell path
    def cellspec(self, path, esp=None):
        """-> None | 'own' | ('vec', elemspec) | 'edge'; path elements 'Rec.f' or '[K]'."""
        sp = self.spec
        i = 0
        n = len(path)
        if not n:
            return 'own' if esp == 'cell' else None
        if type(path[-1]) is tuple or esp == 'cell':
            return None
        # path may begin with an index: element of an array with element spec
        if n and path[0] in ('[K]', '[*]'):
            if n == 1:
                return esp if esp in ('own', 'edge') else None
            if esp is None or esp == 'borrow':
                return None
            path = path[1:]
            n -= 1
        over = None
        for i, el in enumerate(path):
            o = sp.field_override(el)
            if o is not None:
                over = o
                if o == 'borrow':
                    return None
                if i == n - 1:
                    return o
                if type(o) is tuple and o[0] == 'vec' and path[-1].endswith('.xs'):
                    return o
        return sp.field_default(self, path[-1])

    def load(self, st, loc, ty, node):
        """Load a scalar. -> [(st, value)]"""
        self.stats['loads'] += 1
        t = self.T.parse(ty) if isinstance(ty, str) else ty
        out = []
        for st, loc in self.norm_loc(st, loc):
            if self.is_dc_loc(st, loc):
                out.append((st, DC)); continue
            if not self.check_alive(st, loc, node, 'read'):
                continue
            if t == ('int', 'char') and loc[1] and (type(loc[1][-1]) is tuple or loc[1][-1].startswith('[')):
                out.append((st, DC)); continue
            v = st.store.get(loc)
            if v is not None:
                if v == UN:
                    o = st.objs.get(loc[0])
                    self.viol(st, 'uninit-read', node, 'reads %s before it is set' % self.describe(st, loc), key='ur' + repr(loc[1]))
                    out.append((st, DC)); continue
                out.append((st, v)); continue
            out.append((st, self.lazy(st, loc, t, node)))
        return out

    def describe(self, st, loc):
        root = loc[0]
        if isinstance(root, tuple):
            b = root[-1] if isinstance(root[-1], str) else str(root)
        else:
            o = st.objs.get(root)
            b = 'object(%s from %s)' % (o.rec, o.origin) if o else 'object'
        return b + ''.join('[i]' if not isinstance(x, str) or x.startswith('[') else '.' + x.split('.')[-1] for x in loc[1])

    def lazy(self, st, loc, t, node):
        o = st.objs.get(loc[0])
        kind = o.kind if o is not None else ('fresh' if isinstance(loc[0], tuple) and loc[0][0] == 'L' else 'ext')
        if kind == 'fresh':
            # uninitialised
            if any(x.startswith('[') for x in loc[1] if isinstance(x, str)) or self.spec.noinit(self, loc, t, o):
                v = DC
                if t[0] == 'ptr':
                    v = self.newsym(st, t, dc=True)
                    st.store[loc] = v
                return v
            self.viol(st, 'uninit-read', node, 'reads %s before it is set' % self.describe(st, loc), key='ur' + repr(loc[1]))
            return DC
        if isinstance(loc[0], tuple) and loc[0][0] == 'G':
            g = self.gconst(loc[0][1])
            if g is not None and loc[1] in g:
                return g[loc[1]]
            gd = self.tu.globals.get(loc[0][1])
            if t[0] == 'ptr' and (gd is None or gd.op == 'extern'):
                return DC
        if t[0] == 'ptr':
            if o is not None and o.dc:
                return DC
            cs = self.cellspec(loc[1], o.esp if o is not None else None)
            own, esp = 0, None
            b = True
            if cs == 'own':
                own = 1; b = False
            elif type(cs) is tuple:
                own = 1; b = False; esp = cs[1]
            if o is not None and o.kind == 'ext' and o.own is None:
                own = None
            if isinstance(loc[0], tuple) and loc[0][0] == 'G':
                own = 0; b = True; esp = None
            v = self.newsym(st, t, own=own, b=b, esp=esp)
            if not self.spec.maynull(loc[1]):
                # pointer known non-null by the data structure invariant
                st.syms[v[1]] = st.syms[v[1]].upd(neq=frozenset([0]))
            sz = None
            if loc[1] and isinstance(loc[1][-1], str) and loc[1][-1].endswith('.xs'):
                sz = (loc[0], loc[1][:-1] + (loc[1][-1][:-3] + '.size',))
            if sz is not None:
                st.memo[('sizeof', v)] = sz
        elif t[0] in ('int', 'enum'):
            v = self.newsym(st, t)
        else:
            v = DC
        st.store[loc] = v
        return v

    def gconst(self, name):
        """Leaf values of a file-scope variable that nothing modifies."""
        if name in self.gcache:
            return self.gcache[name]
        self.gcache[name] = None
        d = self.tu.globals.get(name)
        if d is None or not d.c or d.c[0] is None or not (d.x or '').strip().startswith('const') and self.modified(name):
            return None
        frames = getattr(self, 'frames', None)
        self.frames = [{}]
        try:
            r = self.eval(d.c[0], State())
        except Exception:
            r = []
        finally:
            if frames is not None:
                self.frames = frames
        if len(r) != 1:
            return None
        v = r[0][1]
        if isinstance(v, SV):
            t = self.T.parse(d.ty)
            m = {}
            for p, lt in (self.leaves(t[1]) if t[0] == 'rec' else ()):
                x = v.m.get(p, NULL if lt[0] in ('ptr', 'int', 'enum') else DC)
                m[p] = x if x[0] in ('i', 'str', 'f', 'd') else DC
        elif v[0] in ('i', 'f', 'str'):
            m = {(): v}
        else:
            return None
        self.gcache[name] = m
        return m

    def modified(self, name):
        if self.gmod is None:
            self.gmod = set()
            def root(x):
                while x is not None and x.k in ('MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
                    if x.k == 'ImplicitCastExpr' and x.op == 'LValueToRValue':
                        return None
                    x = x.c[0]
                return x.name if x is not None and x.k == 'DeclRefExpr' else None
            for f in self.tu.functions.values():
                if f.body is None or not f.file or f.file.startswith('/'):
                    continue
                for x in walk(f.body):
                    if (x.k == 'BinaryOperator' and x.op == '=') or x.k == 'CompoundAssignOperator' or \
                            (x.k == 'UnaryOperator' and x.op in ('&', '++', '--')):
                        r = root(x.c[0])
                        if r:
                            self.gmod.add(r)
        return name in self.gmod

    def load_struct(self, st, loc, recname, node):
        """Snapshot a struct. -> [(st, SV)]"""
        out = []
        for st, loc in self.norm_loc(st, loc):
            m = {}
            if self.is_dc_loc(st, loc):
                for p, t in self.leaves(recname):
                    m[p] = DC
                out.append((st, SV(m))); continue
            if not self.check_alive(st, loc, node, 'read'):
                continue
            for p, t in self.leaves(recname):
                l = (loc[0], loc[1] + p)
                v = st.store.get(l)
                if v is None:
                    o = st.objs.get(loc[0])
                    kind = o.kind if o is not None else ('fresh' if isinstance(loc[0], tuple) and loc[0][0] == 'L' else 'ext')
                    if kind == 'fresh' and not (o is not None and o.dc):
                        v = UN
                        if any(isinstance(x, str) and x.startswith('[') for x in l[1]) or self.spec.noinit(self, l, t, o):
                            v = DC
                    else:
                        v = self.lazy(st, l, t, node)
                m[p] = v
            out.append((st, SV(m)))
        return out

    def mark_dc(self, st, v):
        """Value stored where it is no longer tracked."""
        if isinstance(v, SV):
            for x in v.m.values():
                self.mark_dc(st, x)
            return
        if v[0] == 'p':
            r = v[1][0]
            o = st.objs.get(r)
            if o is not None and not o.dc:
                st.objs[r] = o.upd(dc=True, own=None)
                for loc, x in list(st.store.items()):
                    if loc[0] == r and x[0] in ('p', 's'):
                        self.mark_dc(st, x)
        elif v[0] == 's' and v[1] in st.syms:
            s = st.syms[v[1]]
            if s.ty[0] == 'ptr' and not s.dc:
                st.syms[v[1]] = s.upd(dc=True, own=None)

    def store(self, st, loc, v, node, ty=None):
        """-> [st]"""
        out = []
        v = self.cur_val(st, v)
        for st, loc in self.norm_loc(st, loc):
            if not self.check_alive(st, loc, node, 'written'):
                continue
            v2 = self.cur_val(st, v)
            if self.is_dc_loc(st, loc):
                self.mark_dc(st, v2)
                out.append(st); continue
            if ty == 'char' and loc[1] and (type(loc[1][-1]) is tuple or loc[1][-1].startswith('[')):
                out.append(st); continue   # text is not tracked
            if isinstance(v2, SV):
                for p, x in v2.m.items():
                    st.store[(loc[0], loc[1] + p)] = x
            else:
                st.store[loc] = v2
                for h in self.hooks:
                    h.on_store(self, st, loc, v2, node)
            out.append(st)
        return out

    # -- pointers ---------------------------------------------------------------
    def deref(self, st, v, node, pointee=None):
        """Pointer value -> [(st, loc)]"""
        v = self.cur_val(st, v)
        self.stats['derefs'] += 1
        if v[0] == 'p':
            if not self.check_alive(st, v[1], node):
                return []
            return [(st, v[1])]
        if v[0] == 's':
            s = st.syms.get(v[1])
            if s is None or v[2] != 0 or s.ty == CHARP:
                return [(st, DCLOC)]
            r = self.resolve(st, v, pointee, node)
            return [(st, (r, ()))]
        if v[0] == 'i':
            if v[1] == 0:
                self.viol(st, 'null-use', node, 'uses a result that is absent (null) on this path', key='null')
            return []
        if v[0] == 'u':
            self.viol(st, 'uninit-read', node, 'uses a pointer before it is set', key='uptr')
            return []
        return [(st, DCLOC)]

    def resolve(self, st, v, pointee, node):
        """Turn a non-null pointer symbol into an object root (mutates st)."""
        s = st.syms[v[1]]
        rec = None
        ty = s.ty
        if ty[0] == 'ptr' and ty[1][0] == 'rec':
            rec = ty[1][1]
        elif pointee:
            rec = pointee
        size = st.memo.pop(('sizeof', v), None)
        esp = s.esp
        if esp is None and ty[0] == 'ptr' and ty[1][0] == 'ptr' and ty[1][1][0] == 'rec' and ty[1][1][1] in self.spec.pp:
            esp = 'cell'
        r = self.newobj(st, 'ext', rec=rec, own=s.own, b=s.b, esp=esp, dc=s.dc,
                        origin='line %s' % (node.line if node is not None else '?'), size=size)
        self.subst(st, v[1], ('p', (r, ())))
        self.set_tag(st, r, rec)
        return r

    def set_tag(self, st, r, rec):
        t = self.spec.tag_of(rec)
        if t is not None:
            field, const = t
            if const in self.tu.enum_val and (r, (field,)) not in st.store:
                st.store[(r, (field,))] = ('i', self.tu.enum_val[const])

    def split_null(self, st, v, node=None):
        """-> (null states, nonnull [(st, value)])"""
        v = self.cur_val(st, v)
        if v[0] == 'i':
            return ([st], []) if v[1] == 0 else ([], [(st, v)])
        if v[0] in ('p', 'f', 'str'):
            return [], [(st, v)]
        if v[0] == 's':
            s = st.syms.get(v[1])
            if s is None:
                return [st], [(st.copy(), v)]
            if 0 in s.neq and v[2] == 0:
                return [], [(st, v)]
            if s.ty[0] == 'ptr' and v[2] == 0:
                a = st.copy()
                self.subst(a, v[1], NULL)
                b = st
                b.syms[v[1]] = s.upd(neq=s.neq | {0})
                return [a], [(b, v)]
            a = st.copy()
            if not self.assume_eq(a, v, NULL):
                an = []
            else:
                an = [a]
            b = st
            if not self.assume_ne(b, v, NULL):
                return an, []
            return an, [(b, self.cur_val(b, v))]
        if v[0] == 'u':
            if node is not None:
                self.viol(st, 'uninit-read', node, 'tests a value before it is set', key='utest')
            return [st.copy()], [(st, DC)]
        if self.nonrep and v[0] == 'd' and node is not None and self.isptr(node):
            return [], [(st, v)]
        return [st.copy()], [(st, v)]

    def isptr(self, n):
        if n.k == 'BinaryOperator' and n.op in ('==', '!='):
            return any(c is not None and self.T.parse(c.ty)[0] == 'ptr' for c in n.c[:2])
        return self.T.parse(n.ty)[0] == 'ptr'

    def loop_index(self, n, cond, inc, body):
        """The variable a loop counts with: compared in the condition and
        stepped in the loop. -> (variable, what to add to it for the element an
        iteration is about)"""
        if id(n) in self.idxcache:
            return self.idxcache[id(n)]
        r = None
        if cond is not None:
            cv = []
            for x in walk(cond):
                if x.k == 'DeclRefExpr' and x.ref not in cv:
                    t = self.T.parse(x.ty)
                    if t[0] == 'int' or t[0] == 'ptr' and t != CHARP and t[1][0] in ('rec', 'ptr'):
                        cv.append(x.ref)
            step, down = set(), {}
            for part in (cond, inc, body):
                if part is None:
                    continue
                for x in walk(part):
                    if (x.k == 'UnaryOperator' and x.op in ('++', '--')) or x.k == 'CompoundAssignOperator':
                        y = x.c[0]
                        while y is not None and y.k == 'ParenExpr':
                            y = y.c[0]
                        if y is not None and y.k == 'DeclRefExpr':
                            step.add(y.ref)
                            if x.op in ('--', '-='):
                                down[y.ref] = part is cond
            for c in cv:
                if c in step:
                    off = 0
                    if c in down and not down[c] and not any(x.k == 'BinaryOperator' and x.op in ('>=', '<=') for x in walk(cond)):
                        off = -1
                    r = (c, off)
                    break
        self.idxcache[id(n)] = r
        return r

    def elem_index(self, v):
        """A counter's value; for a pointer into an array, the index of what
        it points to."""
        if v[0] == 'p':
            path = v[1][1]
            return path[-1][1] if path and type(path[-1]) is tuple else None
        return v

    def with_index(self, v, i):
        return ('p', (v[1][0], v[1][1][:-1] + (('#', i),))) if v[0] == 'p' else i

    def same_array(self, a, b):
        """The indices of two pointers into the same array."""
        if a[0] != 'p' or b[0] != 'p' or a[1][0] != b[1][0]:
            return None
        pa, pb = a[1][1], b[1][1]
        ia = ib = ('i', 0)
        if pa and type(pa[-1]) is tuple:
            ia = pa[-1][1]; pa = pa[:-1]
        if pb and type(pb[-1]) is tuple:
            ib = pb[-1][1]; pb = pb[:-1]
        return (ia, ib) if pa == pb and (len(pa) < len(a[1][1]) or len(pb) < len(b[1][1])) else None

    def enter_array(self, s, var, n):
        """A pointer about to walk an array points to its first element."""
        root = self.frames[-1].get(var)
        v = s.store.get((root, ())) if root is not None else None
        t = self.ltypes.get(root)
        if v is None or t is None or t[0] != 'ptr':
            return
        v = self.cur_val(s, v)
        if v[0] == 's' and v[2] == 0 and v[1] in s.syms and s.syms[v[1]].ty[0] == 'ptr' and not s.syms[v[1]].dc:
            v = ('p', (self.resolve(s, v, None, n), ()))
        if v[0] == 'p' and not (v[1][1] and type(v[1][1][-1]) is tuple) and not self.single(*v[1]):
            s.store[(root, ())] = ('p', (v[1][0], v[1][1] + (('#', ('i', 0)),)))

    def rep_split(self, n, T, idx):
        """Loop heads split into those about element K and the others."""
        rep, non, unk = [], [], []
        idx, off = idx
        for s in T:
            root = self.frames[-1].get(idx)
            v = s.store.get((root, ())) if root is not None else None
            if v is not None:
                v = self.shift(self.elem_index(self.cur_val(s, v)) or DC, off)
            if v is None or v[0] not in ('i', 's'):
                unk.append(s)
                continue
            for c, x in self.ksplit(s, v):
                (rep if c == E else non).append(x)
        return rep, non, unk

    def assume_eq(self, st, a, b):
        """Assume a == b; False if infeasible. Mutates."""
        a = self.cur_val(st, a); b = self.cur_val(st, b)
        if a[0] == 'i' and b[0] == 'i':
            return a[1] == b[1]
        if b[0] == 's' and a[0] != 's':
            a, b = b, a
        if a[0] == 's':
            s = st.syms.get(a[1])
            if s is None:
                return True
            if b[0] == 'i':
                val = b[1] - a[2]
                if b[1] in s.neq and a[2] == 0:
                    return False
                if s.ty[0] in ('int',) and val < 0 and 'unsigned' in s.ty[1]:
                    return False
                # K class consistency
                if s.mask != 7 and self.krefine(st, ('i', val), s.mask) is None:
                    return False
                self.subst(st, a[1], ('i', val))
                return True
            if b[0] == 's':
                if a[1] == b[1]:
                    return a[2] == b[2]
                sb = st.syms.get(b[1])
                if sb is None:
                    return True
                if s.ty[0] == 'ptr' or sb.ty[0] == 'ptr':
                    return True
                ma = self.kmask(st, a) & self.kmask(st, b)
                if not ma:
                    return False
                if self.krefine(st, a, ma) is None or self.krefine(st, b, ma) is None:
                    return False
                a = self.cur_val(st, a); b = self.cur_val(st, b)
                if a[0] == 's' and b[0] == 's' and a[1] != b[1]:
                    self.subst(st, a[1], ('s', b[1], b[2] - a[2]))
                return True
            if b[0] == 'p' and s.ty[0] == 'ptr' and a[2] == 0:
                return True
            return True
        return True

    def assume_ne(self, st, a, b):
        a = self.cur_val(st, a); b = self.cur_val(st, b)
        if a[0] == 'i' and b[0] == 'i':
            return a[1] != b[1]
        if b[0] == 's' and a[0] != 's':
            a, b = b, a
        if a[0] == 's':
            s = st.syms.get(a[1])
            if s is None:
                return True
            if b[0] == 'i':
                val = b[1] - a[2]
                neq = s.neq | {val}
                if s.ty[0] == 'int' and s.ty[1] in ('bool', '_Bool'):
                    if val in (0, 1):
                        other = 1 - val
                        if other in s.neq:
                            return False
                        self.subst(st, a[1], ('i', other))
                        return True
                if s.ty[0] == 'enum':
                    vals = [x for _, x in self.tu.enums.get(s.ty[1], ())]
                    rest = [x for x in vals if x not in neq]
                    if vals and not rest:
                        return False
                    if len(rest) == 1:
                        self.subst(st, a[1], ('i', rest[0]))
                        return True
                st.syms[a[1]] = s.upd(neq=neq)
                return True
            if b[0] == 's' and a[1] == b[1]:
                return a[2] != b[2]
            # equality class: if both known E, they are equal
            if b[0] == 's' and s.ty[0] != 'ptr':
                if self.kmask(st, a) == E and self.kmask(st, b) == E:
                    return False
        return True

    # -- expression evaluation ---------------------------------------------------
    def eval(self, n, st):
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            raise Broken('unsupported expression %s at %s:%s' % (n.k, n.file, n.line))
        return m(n, st)

    def evals(self, ns, st):
        """Evaluate list -> [(st, [values])]"""
        ns = list(ns)
        late = -1
        for i, n in enumerate(ns):
            if self.has_call(n):
                late = i
        if late <= 0:
            cur = [(st, [])]
            for n in ns:
                nxt = []
                for s, vs in cur:
                    for s2, v in self.eval(n, s):
                        nxt.append((s2, vs + [v]))
                cur = nxt
            return [(s, [self.cur_val(s, v) for v in vs]) for s, vs in cur]
        # values that wait for a later call live in temporary cells
        cur = [st]
        for i, n in enumerate(ns):
            nxt = []
            for s in cur:
                for s2, v in self.eval(n, s):
                    self.pend(s2, (id(n), i), v)
                    nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out.append((s, [self.unpend(s, (id(n), i)) for i, n in enumerate(ns)]))
        return out

    def has_call(self, n):
        r = self.callcache.get(id(n))
        if r is None:
            r = any(x.k in ('CallExpr', 'StmtExpr') for x in walk(n))
            self.callcache[id(n)] = r
            self.keep.append(n)
        return r

    def pend(self, st, key, v):
        root = ('L', len(self.frames), '~%s.%s' % key, '~')
        v = self.cur_val(st, v)
        if isinstance(v, SV):
            st.store[(root, ('~sv',))] = ('i', len(v.m))
            for p, x in v.m.items():
                st.store[(root, ('~m',) + p)] = x
        else:
            st.store[(root, ())] = v

    def unpend(self, st, key):
        root = ('L', len(self.frames), '~%s.%s' % key, '~')
        v = st.store.pop((root, ()), None)
        if v is not None:
            return self.cur_val(st, v)
        st.store.pop((root, ('~sv',)))
        m = {}
        for l in [l for l in st.store if l[0] == root]:
            m[l[1][1:]] = self.cur_val(st, st.store.pop(l))
        return SV(m)

    def e_IntegerLiteral(self, n, st):
        return [(st, ('i', int(n.val)))]

    def e_CharacterLiteral(self, n, st):
        return [(st, ('i', int(n.val)))]

    def e_FloatingLiteral(self, n, st):
        return [(st, DC)]

    def e_StringLiteral(self, n, st):
        return [(st, ('str', n.val))]

    def e_PredefinedExpr(self, n, st):
        return [(st, ('str', ''))]

    def e_ImplicitValueInitExpr(self, n, st):
        t = self.T.parse(n.ty)
        if t[0] == 'rec':
            return [(st, SV({p: NULL for p, _ in self.leaves(t[1])}))]
        return [(st, NULL)]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        ty = n.x
        if not ty and n.c and n.c[0] is not None:
            ty = n.c[0].ty
        return [(st, ('sz', ty))]

    def e_OffsetOfExpr(self, n, st):
        return [(st, DC)]

    def e_VAArgExpr(self, n, st):
        return [(st, DC if self.T.parse(n.ty)[0] != 'ptr' else self.newsym(st, self.T.parse(n.ty)))]

    def e_StmtExpr(self, n, st):
        o = self.exec(n.c[0], [st])
        return [(s, DC) for s in o.n]

    def e_DeclRefExpr(self, n, st):
        if n.val == 'EnumConstantDecl':
            return [(st, ('i', self.tu.enum_val.get(n.name, 0)))]
        if n.val == 'FunctionDecl':
            return [(st, ('f', n.name))]
        # arrays and records as rvalues handled via lvalue casts
        return [(s, ('p', l)) for s, l in self.lv(n, st)]

    def e_CompoundLiteralExpr(self, n, st):
        return self.eval(n.c[0], st)

    def e_InitListExpr(self, n, st):
        t = self.T.parse(n.ty)
        if t[0] == 'rec':
            rec = self.T.record(t[1])
            cur = [(st, {})]
            fields = rec.fields if rec is not None else []
            for i, c in enumerate(n.c):
                if i >= len(fields):
                    break
                fname, fty, _ = fields[i]
                ft = self.T.parse(fty)
                pre = () if fname == '_base' else (t[1] + '.' + fname,)
                nxt = []
                hc = self.has_call(c)
                for s, m in cur:
                    if hc:
                        self.pend(s, (id(c), 'il'), SV(m))
                    for s2, v in self.eval(c, s):
                        m2 = dict(m) if not hc else self.unpend(s2, (id(c), 'il')).m
                        if isinstance(v, SV):
                            for p, x in v.m.items():
                                m2[pre + p] = x
                        elif ft[0] == 'arr':
                            pass
                        else:
                            m2[pre] = v
                        nxt.append((s2, m2))
                cur = nxt
            return [(s, SV({p: self.cur_val(s, x) for p, x in m.items()})) for s, m in cur]
        if t[0] == 'arr':
            cur = [(st, [])]
            for c in n.c:
                nxt = []
                for s, vs in cur:
                    for s2, v in self.eval(c, s):
                        nxt.append((s2, vs + [v]))
                cur = nxt
            return [(s, ('arr', tuple(vs))) for s, vs in cur]
        if n.c:
            return self.eval(n.c[0], st)
        return [(st, NULL)]

    # lvalues
    def lv(self, n, st):
        k = n.k
        if k == 'DeclRefExpr':
            if n.val == 'VarDecl' or n.val == 'ParmVarDecl':
                fr = self.frames[-1]
                if n.ref in fr:
                    return [(st, (fr[n.ref], ()))]
                return [(st, (('G', n.name), ()))]
            return [(st, (('G', n.name), ()))]
        if k == 'MemberExpr':
            base = n.c[0]
            if n.val:
                out = []
                pt = self.T.parse(base.ty)
                prec = pt[1][1] if pt[0] == 'ptr' and pt[1][0] == 'rec' else None
                for s, v in self.eval(base, st):
                    for s2, l in self.deref(s, v, n, prec):
                        out.extend(self.member(s2, l, prec, n))
                return out
            prec = self.isrec(base.ty)
            out = []
            for s, l in self.lv(base, st):
                out.extend(self.member(s, l, prec, n))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            if self.vsp:
                b = n.c[0]
                while b is not None and b.k == 'ImplicitCastExpr':
                    b = b.c[0]
                if b is not None and b.k == 'DeclRefExpr' and b.ref in self.vsp:
                    i = self.const(n.c[1])
                    r = self.vsp[b.ref].get(i)
                    return [(st, (r, ()) if r is not None else DCLOC)]
            for s, (a, i) in self.evals(n.c, st):
                out.extend(self.index(s, a, i, n))
            return out
        if k == 'UnaryOperator' and n.op == '*':
            out = []
            for s, v in self.eval(n.c[0], st):
                out.extend(self.deref(s, v, n))
            return out
        if k == 'UnaryOperator' and n.op == '__extension__':
            return self.lv(n.c[0], st)
        if k == 'UnaryOperator' and n.op in ('++', '--') and not n.val:
            out = []
            for s, v in self.eval(n, st):
                out.extend(self.lv(n.c[0], s))
            return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lv(n.c[0], st)
        if k == 'CompoundLiteralExpr':
            out = []
            for s, v in self.eval(n.c[0], st):
                root = ('L', len(self.frames), 'cl%s' % n.id, 'literal')
                for loc in [x for x in s.store if x[0] == root]:
                    del s.store[loc]
                if isinstance(v, SV):
                    for p, x in v.m.items():
                        s.store[(root, p)] = x
                elif v[0] == 'arr':
                    s = self.store_array(s, (root, ()), v, n)[0]
                else:
                    s.store[(root, ())] = v
                out.append((s, (root, ())))
            return out
        if k in ('CallExpr', 'ConditionalOperator', 'BinaryOperator', 'StmtExpr', 'VAArgExpr', 'CompoundAssignOperator'):
            # struct rvalue used as lvalue base: materialise a temporary
            out = []
            for s, v in self.eval(n, st):
                root = ('L', len(self.frames), 't%s' % n.id, 'temporary')
                for loc in [x for x in s.store if x[0] == root]:
                    del s.store[loc]
                if isinstance(v, SV):
                    for p, x in v.m.items():
                        s.store[(root, p)] = x
                    out.append((s, (root, ())))
                elif v[0] == 'p':
                    out.append((s, v[1]))
                else:
                    out.append((s, DCLOC))
            return out
        if k == 'StringLiteral' or k == 'PredefinedExpr':
            return [(st, DCLOC)]
        raise Broken('unsupported lvalue %s at %s:%s' % (k, n.file, n.line))

    def member(self, st, loc, prec, n):
        f = n.name
        if f == '_base':
            return [(st, loc)]
        if not f:
            return [(st, loc)]
        if prec is None:
            return [(st, (loc[0], loc[1] + ('?.' + f,)))]
        # a pointer to an object accesses fields through the record that declares them
        for h in self.hooks:
            h.on_member(self, st, loc, prec, f, n)
        return [(st, (loc[0], loc[1] + (prec + '.' + f,)))]

    def index(self, st, a, i, n):
        a = self.cur_val(st, a); i = self.cur_val(st, i)
        if i[0] == 'sz':
            i = DC
        et = self.T.parse(n.ty)
        if et[0] not in ('ptr', 'rec', 'arr'):
            # scalar elements are not followed
            if a[0] in ('p', 's', 'i', 'u') :
                res = []
                for s, l in self.deref(st, a, n):
                    res.append((s, (l[0], l[1] + ('[*]',))))
                return res
            return [(st, DCLOC)]
        out = []
        for s, l in self.deref(st, a, n):
            i2 = self.cur_val(s, i)
            root, path = l
            if path and type(path[-1]) is tuple:
                out.append((s, (root, path[:-1] + (('#', self.addv(s, path[-1][1], i2)),))))
            elif self.single(root, path):
                out.append((s, l))
            else:
                out.append((s, (root, path + (('#', i2),))))
        return out

    def single(self, root, path):
        """A variable (or a field of one) that is not an array."""
        if not isinstance(root, tuple) or root[0] != 'L':
            return False
        t = self.ltypes.get(root)
        if t is None:
            return False
        if not path:
            return t[0] != 'arr'
        el = path[-1]
        if isinstance(el, str) and '.' in el:
            rn, fn = el.split('.', 1)
            rec = self.T.record(rn)
            for f, ty, _ in (rec.fields if rec is not None else ()):
                if f == fn:
                    return self.T.parse(ty)[0] != 'arr'
        return False

    def addv(self, st, a, b):
        if a[0] == 'i' and b[0] == 'i':
            return ('i', a[1] + b[1])
        if a[0] == 's' and b[0] == 'i':
            return ('s', a[1], a[2] + b[1])
        if a[0] == 'i' and b[0] == 's':
            return ('s', b[1], b[2] + a[1])
        return DC

    def e_MemberExpr(self, n, st):
        return [(s, ('p', l)) for s, l in self.lv(n, st)]

    def e_ArraySubscriptExpr(self, n, st):
        return [(s, ('p', l)) for s, l in self.lv(n, st)]

    def e_ImplicitCastExpr(self, n, st):
        op = n.op
        c = n.c[0]
        if op == 'LValueToRValue':
            rec = self.isrec(n.ty)
            out = []
            for s, l in self.lv(c, st):
                if rec:
                    out.extend(self.load_struct(s, l, rec, n))
                else:
                    out.extend(self.load(s, l, n.ty, n))
            return out
        if op == 'ArrayToPointerDecay':
            if c.k == 'StringLiteral':
                return [(st, ('str', c.val))]
            if c.k == 'PredefinedExpr':
                return [(st, ('str', ''))]
            return [(s, ('p', l)) for s, l in self.lv(c, st)]
        if op == 'FunctionToPointerDecay':
            f = c
            while f.k != 'DeclRefExpr':
                if f.k == 'UnaryOperator' or f.k.endswith('CastExpr'):
                    f = f.c[0]
                else:
                    return self.eval(f, st)
            return [(st, ('f', f.name))]
        return self.cast(n, st)

    def e_CStyleCastExpr(self, n, st):
        return self.cast(n, st)

    def cast(self, n, st):
        op = n.op
        c = n.c[0]
        if op == 'ToVoid':
            return [(s, DC) for s, v in self.eval(c, st)]
        out = []
        for s, v in self.eval(c, st):
            if op in ('BitCast', 'NoOp', 'IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
                if op == 'IntegralToBoolean':
                    for s2, b in self.tobool(s, v, n):
                        out.append((s2, b))
                    continue
                if op == 'BitCast' and type(v) is tuple and v[0] == 's':
                    sy = s.syms.get(v[1])
                    t = self.T.parse(n.ty)
                    if sy is not None and t[0] == 'ptr' and t[1][0] == 'rec' and sy.ty[0] == 'ptr' and sy.ty[1][0] != 'rec':
                        s.syms[v[1]] = sy.upd(ty=t)
                if op == 'BitCast' and type(v) is tuple and v[0] == 'p':
                    self.retype(s, v, n)
                out.append((s, v))
            elif op == 'NullToPointer':
                out.append((s, NULL))
            elif op == 'PointerToBoolean':
                nul, non = self.split_null(s, v, n)
                for x in nul:
                    out.append((x, ('i', 0)))
                for x, _ in non:
                    out.append((x, ('i', 1)))
            elif op in ('PointerToIntegral', 'IntegralToPointer'):
                out.append((s, v if v[0] in ('i', 'p') else DC))
            elif op == 'LValueToRValue':
                out.append((s, v))
            else:
                out.append((s, DC))
        return out

    def retype(self, st, v, n):
        """(T*) applied to raw memory gives it a record type."""
        t = self.T.parse(n.ty)
        if t[0] == 'ptr' and t[1][0] == 'rec' and not v[1][1]:
            o = st.objs.get(v[1][0])
            if o is not None and o.kind == 'fresh' and (o.rec is None):
                st.objs[v[1][0]] = o.upd(rec=t[1][1])

    def tobool(self, st, v, n):
        nul, non = self.split_null(st, v, n)
        return [(s, ('i', 0)) for s in nul] + [(s, ('i', 1)) for s, _ in non]

    def e_ConditionalOperator(self, n, st):
        t, f = self.branch(n.c[0], st)
        out = []
        for s in t:
            out.extend(self.eval(n.c[1], s))
        for s in f:
            out.extend(self.eval(n.c[2], s))
        return out

    def e_UnaryOperator(self, n, st):
        op = n.op
        c = n.c[0]
        if op == '&':
            if c.k == 'DeclRefExpr' and c.val == 'FunctionDecl':
                return [(st, ('f', c.name))]
            return [(s, ('p', l)) for s, l in self.lv(c, st)]
        if op == '*':
            return [(s, ('p', l)) for s, l in self.lv(n, st)]
        if op == '!':
            t, f = self.branch(c, st)
            return [(s, ('i', 0)) for s in t] + [(s, ('i', 1)) for s in f]
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            out = []
            for s, l in self.lv(c, st):
                for s1, l1 in self.norm_loc(s, l):
                    for s2, v in self.load(s1, l1, c.ty, n):
                        out.extend(self.incr(s2, l1, v, d, n, c))
            return out
        if op == '-':
            return [(s, ('i', -v[1]) if v[0] == 'i' else DC) for s, v in self.eval(c, st)]
        if op == '+' or op == '__extension__':
            return self.eval(c, st)
        return [(s, DC) for s, v in self.eval(c, st)]

    def incr(self, st, loc, v, d, n, c):
        pt = self.T.parse(c.ty)
        fld = loc[1][-1] if loc[1] and isinstance(loc[1][-1], str) else ''
        if self.spec.is_refcount(fld):
            return self.refcount(st, loc, v, d, n)
        if pt == CHARP:
            nv = DC
        elif pt[0] == 'ptr':
            v2 = self.cur_val(st, v)
            if v2[0] == 'p':
                root, path = v2[1]
                if path and type(path[-1]) is tuple:
                    nv = ('p', (root, path[:-1] + (('#', self.addv(st, path[-1][1], ('i', d))),)))
                else:
                    nv = ('p', (root, path + (('#', ('i', d)),)))
                st.inc = st.inc | {loc}
            else:
                nv = DC if v2[0] != 'str' else v2
        elif v[0] in ('i', 's') and pt[0] in ('int', 'enum') and not (pt[0] == 'int' and pt[1] in ('bool', '_Bool')):
            nv = self.addv(st, v, ('i', d))
            st.inc = st.inc | {loc}
        else:
            nv = DC
        return [(s, v if n.val else self.cur_val(s, nv)) for s in self.store(st, loc, nv, n)]

    def refcount(self, st, loc, v, d, n):
        """A reference count moves: +1 acquires a reference to the object, -1
        gives one up; reaching zero makes the caller answerable for the contents."""
        r = loc[0]
        o = st.objs.get(r)
        if o is None or o.dc:
            return [(st, DC)]
        if d > 0:
            self.stats['acquires'] += 1
            st.objs[r] = o.upd(own=(o.own or 0) + 1)
            return [(st, self.newsym(st, ('int', 'unsigned long'), neq=frozenset([0])))]
        self.stats['releases'] += 1
        if (o.own or 0) <= 0:
            self.viol(st, 'over-release', n, 'gives up a reference it does not hold')
            return []
        a = st.copy()
        # zero: last reference; caller must dispose of the memory
        a.store[loc] = ('i', 0)
        b = st
        b.objs[r] = o.upd(own=o.own - 1, b=True)
        sv = self.newsym(b, ('int', 'unsigned long'), neq=frozenset([0]))
        b.store[loc] = sv
        a.note(n.line, 'last reference')
        if n.val:
            return [(a, ('i', 1)), (b, DC)]
        return [(a, ('i', 0)), (b, sv)]

    def reverse(self, st, a, b, t):
        """a - b where a is the size of a collection: elements reached from
        the end are numbered from the end.  A fresh symbol stands for the
        difference; memo remembers what it is."""
        if a[0] == 's' and b[0] in ('s', 'i') and a[1] in st.syms and st.syms[a[1]].ty[0] == 'int' and (b[0] == 'i' or b[1] in st.syms and a[1] != b[1]):
            j = self.shift(b, -a[2] - 1)
            v = self.newsym(st, t)
            st.memo[('rev', v)] = (('s', a[1], 0), j)
            return v
        return None

    def e_BinaryOperator(self, n, st):
        op = n.op
        if op == '=':
            return self.assign(n, st)
        if op == ',':
            out = []
            for s, _ in self.eval(n.c[0], st):
                out.extend(self.eval(n.c[1], s))
            return out
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            t, f = self.branch(n, st)
            return [(s, ('i', 1)) for s in t] + [(s, ('i', 0)) for s in f]
        out = []
        for s, (a, b) in self.evals(n.c, st):
            out.append((s, self.arith(s, op, a, b, n)))
        return out

    def arith(self, st, op, a, b, n):
        t = self.T.parse(n.ty)
        if t[0] == 'ptr':
            if t == CHARP:
                return DC
            if b[0] == 'p' and a[0] != 'p':
                a, b = b, a
            if a[0] == 's' and a[2] == 0 and a[1] in st.syms and st.syms[a[1]].ty[0] == 'ptr' and not st.syms[a[1]].dc:
                r = self.resolve(st, a, None, n)
                a = ('p', (r, ()))
            if a[0] == 'p' and op in ('+', '-'):
                if b[0] == 'i' and op == '-':
                    root, path = a[1]
                    if not self.isconst(n.c[-1]) and path and type(path[-1]) is tuple:
                        r = self.reverse(st, path[-1][1], b, ('int', 'unsigned long'))
                        if r is not None:
                            return ('p', (root, path[:-1] + (('#', r),)))
                    b = ('i', -b[1])
                elif op == '-' and b[0] != 'i':
                    root, path = a[1]
                    if path and type(path[-1]) is tuple:
                        r = self.reverse(st, path[-1][1], b, ('int', 'unsigned long'))
                        if r is not None:
                            return ('p', (root, path[:-1] + (('#', r),)))
                    b = DC
                root, path = a[1]
                if path and type(path[-1]) is tuple:
                    return ('p', (root, path[:-1] + (('#', self.addv(st, path[-1][1], b)),)))
                return ('p', (root, path + (('#', b),)))
            if a[0] == 'str':
                return a
            return DC
        if op == '+':
            return self.addv(st, a, b)
        if op == '-':
            if b[0] == 'i':
                if not self.isconst(n.c[-1]):
                    r = self.reverse(st, a, b, t)
                    if r is not None:
                        return r
                return self.addv(st, a, ('i', -b[1]))
            ii = self.same_array(a, b)
            if ii is not None:
                return self.arith(st, '-', ii[0], ii[1], n)
            if a[0] == 's' and b[0] == 's' and a[1] == b[1]:
                return ('i', a[2] - b[2])
            r = self.reverse(st, a, b, t)
            return r if r is not None else DC
        if op == '*':
            if a[0] == 'sz':
                return a
            if b[0] == 'sz':
                return b
        if a[0] == 'i' and b[0] == 'i':
            try:
                x, y = a[1], b[1]
                r = {'*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x % y, '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}.get(op)
                if r:
                    return ('i', r())
            except ZeroDivisionError:
                pass
        return DC

    def assign(self, n, st):
        lhs, rhs = n.c
        out = []
        rec = self.isrec(lhs.ty)
        hc = self.has_call(lhs)
        for s, v in self.eval(rhs, st):
            if hc:
                self.pend(s, (id(n), 'as'), v)
            for s2, l in self.lv(lhs, s):
                v2 = self.cur_val(s2, v) if not hc else self.unpend(s2, (id(n), 'as'))
                if v2 is not None and not isinstance(v2, SV) and v2[0] == 'p' and rec:
                    # struct assigned from lvalue expression
                    for s3, sv in self.load_struct(s2, v2[1], rec, n):
                        for s4 in self.store(s3, l, sv, n):
                            out.append((s4, sv))
                    continue
                for s3 in self.store(s2, l, v2, n, lhs.ty):
                    out.append((s3, self.cur_val(s3, v2)))
        return out

    def e_CompoundAssignOperator(self, n, st):
        op = n.op[:-1]
        out = []
        for s, v in self.eval(n.c[1], st):
            for s2, l in self.lv(n.c[0], s):
                for s25, l in self.norm_loc(s2, l):
                    for s3, old in self.load(s25, l, n.c[0].ty, n):
                        v2 = self.cur_val(s3, v)
                        if v2[0] == 'sz':
                            v2 = DC
                        nv = self.arith(s3, op, old, v2, n)
                        if op in ('+', '-') and nv[0] in ('i', 's'):
                            s3.inc = s3.inc | {l}
                        for s4 in self.store(s3, l, nv, n):
                            out.append((s4, nv))
        return out

    # -- conditions ---------------------------------------------------------------
    def branch(self, n, st):
        """-> (true states, false states)"""
        k = n.k
        if k == 'UnaryOperator' and n.op == '!':
            t, f = self.branch(n.c[0], st)
            return f, t
        if k == 'BinaryOperator':
            if n.op == '&&':
                t1, f1 = self.branch(n.c[0], st)
                T, F = [], list(f1)
                for s in t1:
                    t2, f2 = self.branch(n.c[1], s)
                    T.extend(t2); F.extend(f2)
                return T, F
            if n.op == '||':
                t1, f1 = self.branch(n.c[0], st)
                T, F = list(t1), []
                for s in f1:
                    t2, f2 = self.branch(n.c[1], s)
                    T.extend(t2); F.extend(f2)
                return T, F
            if n.op in ('==', '!=', '<', '>', '<=', '>='):
                T, F = [], []
                for s, (a, b) in self.evals(n.c, st):
                    t, f = self.compare(s, n.op, a, b, n)
                    T.extend(t); F.extend(f)
                return T, F
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.op in ('IntegralToBoolean', 'PointerToBoolean', 'IntegralCast', 'NoOp') and \
                n.c[0].k in ('BinaryOperator', 'UnaryOperator', 'ImplicitCastExpr') and n.op != 'PointerToBoolean':
            if n.c[0].k != 'UnaryOperator' or n.c[0].op == '!':
                if n.c[0].k == 'BinaryOperator' and n.c[0].op not in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                    pass
                elif n.c[0].k != 'ImplicitCastExpr' or n.c[0].op in ('IntegralToBoolean', 'IntegralCast', 'NoOp'):
                    return self.branch(n.c[0], st)
        T, F = [], []
        for s, v in self.eval(n, st):
            if isinstance(v, SV):
                T.append(s); F.append(s.copy()); continue
            if v[0] == 'sz':
                T.append(s); continue
            nul, non = self.split_null(s, v, n)
            F.extend(nul)
            T.extend(x for x, _ in non)
        return T, F

    def compare(self, st, op, a, b, n):
        if a[0] == 'u' or b[0] == 'u':
            self.viol(st, 'uninit-read', n, 'compares a value before it is set', key='ucmp')
            return [st], [st.copy()]
        if op == '!=':
            t, f = self.compare(st, '==', a, b, n)
            return f, t
        if op == '>':
            return self.compare(st, '<', b, a, n)
        if op == '>=':
            t, f = self.compare(st, '<', a, b, n)
            return f, t
        if op == '<=':
            t, f = self.compare(st, '<', b, a, n)
            return f, t
        if op == '==':
            if a == NULL or b == NULL:
                v = b if a == NULL else a
                nul, non = self.split_null(st, v, n)
                return nul, [x for x, _ in non]
            if a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    return [st], []
                ii = self.same_array(a, b)
                if ii is not None:
                    return self.compare(st, '==', ii[0], ii[1], n)
                oa, ob = st.objs.get(a[1][0]), st.objs.get(b[1][0])
                if (isinstance(a[1][0], tuple) and a[1][0][0] == 'L') or (isinstance(b[1][0], tuple) and b[1][0][0] == 'L'):
                    if a[1][0] != b[1][0]:
                        return [], [st]
                return [st], [st.copy()]
            if 'd' in (a[0], b[0]) or 'str' in (a[0], b[0]) or 'sz' in (a[0], b[0]):
                return [st], [st.copy()]
            if a[0] == 'f' and b[0] == 'f':
                return ([st], []) if a == b else ([], [st])
            key = ('==',) + tuple(sorted((a, b), key=repr))
            if key in st.memo:
                return ([st], []) if st.memo[key] else ([], [st])
            t = st.copy()
            f = st
            T = [t] if self.assume_eq(t, a, b) else []
            F = [f] if self.assume_ne(f, a, b) else []
            if T and F and a[0] in ('s', 'p') and b[0] in ('s', 'p'):
                f.memo[key] = False
                t.memo[key] = True
            return T, F
        # '<'
        ii = self.same_array(a, b)
        if ii is not None:
            a, b = ii
        uns = ii is not None or self.is_unsigned(n)
        if a[0] == 'i' and b[0] == 'i':
            return ([st], []) if a[1] < b[1] else ([], [st])
        if a[0] == 's' and b[0] == 's' and a[1] == b[1]:
            return ([st], []) if a[2] < b[2] else ([], [st])
        if a[0] not in ('i', 's') or b[0] not in ('i', 's'):
            return [st], [st.copy()]
        if uns:
            if b == ('i', 0):
                return [], [st]
            if a == b:
                return [], [st]
            if a == ('i', 0):
                # 0 < b  <=>  b != 0
                nul, non = self.split_null(st, b, n)
                T = []
                for s, v in non:
                    ma, mb = self.kmask(s, a), self.kmask(s, v)
                    na, nb = self.project(ma, mb, True)
                    if not na or not nb:
                        continue
                    if na != ma and self.krefine(s, a, na) is None:
                        continue
                    if nb != mb and self.krefine(s, self.cur_val(s, v), nb) is None:
                        continue
                    T.append(s)
                return T, nul
            if b == ('i', 1) :
                nul, non = self.split_null(st, a, n)
                return nul, [x for x, _ in non]
        key = ('<', a, b)
        if key in st.memo:
            return ([st], []) if st.memo[key] else ([], [st])
        T, F = [], []
        ma, mb = self.kmask(st, a), self.kmask(st, b)
        for dst, val in ((T, True), (F, False)):
            na, nb = self.project(ma, mb, val)
            if not na or not nb:
                continue
            s = st.copy()
            if a[0] == 's' or b[0] == 's':
                s.memo[key] = val
            if na != ma and self.krefine(s, a, na) is None:
                continue
            if nb != mb and self.krefine(s, self.cur_val(s, b), nb) is None:
                continue
            dst.append(s)
        return T, F

    def is_unsigned(self, n):
        t = self.T.parse(n.c[0].ty)
        return t[0] == 'enum' or (t[0] == 'int' and ('unsigned' in t[1] or t[1] in ('size_t', 'bool', '_Bool', 'uint64_t')))

    # -- calls -------------------------------------------------------------------
    def e_CallExpr(self, n, st):
        self.stats['calls'] += 1
        name = callee(n)
        out = []
        if name in ('__assert_fail', 'abort', 'exit', '_exit', '__assert', 'FbleUnreachable'):
            for s, vs in self.evals(n.c[1:], st):
                if name in ('exit', '_exit'):
                    self.on_exit(s, vs, n)
            return []
        if name is None:
            for s, vs in self.evals(n.c[1:], st):
                out.extend(self.unknown_call(s, None, vs, n))
            return out
        for s, vs in self.evals(n.c[1:], st):
            out.extend(self.call(s, name, vs, n))
        return out

    def on_exit(self, st, vs, n):
        for h in self.hooks:
            h.on_exit_call(self, st, vs, n)

    def call(self, st, name, vs, n):
        for h in self.hooks:
            r = h.on_call(self, st, name, vs, n)
            if r is not None:
                return r
        h = self.spec.handler(name)
        if h is not None:
            self.stats['contracts'].add(name)
            res = h(self, st, name, vs, n)
            for hk in self.hooks:
                res = hk.after_call(self, name, vs, n, res)
            return res
        f = self.tu.functions.get(name)
        if f is not None and f.body is not None and name not in self.stack and name not in self.recursive and \
                len(self.stack) < 25 and f.file and not f.file.startswith('/') and not f.variadic:
            self.stats['inlined'].add(name)
            res = self.inline(st, f, vs, n)
            for hk in self.hooks:
                res = hk.after_call(self, name, vs, n, res)
            return res
        self.stats['unknown'].add(name)
        res = self.unknown_call(st, name, vs, n)
        for hk in self.hooks:
            res = hk.after_call(self, name, vs, n, res)
        return res

    def unknown_call(self, st, name, vs, n):
        t = self.T.parse(n.ty)
        for v in vs:
            if not self.spec.use(self, st, v, n):
                return []
        # writes through non-const pointers to locals: forget scalars
        for a, v in zip(n.c[1:], vs):
            if isinstance(v, SV):
                continue
            v = self.cur_val(st, v)
            if v[0] == 'p':
                at = a.ty or ''
                if at.startswith('const ') or 'const' in (a.x or ''):
                    continue
                root, path = v[1]
                if isinstance(root, tuple) and root[0] == 'L' or path:
                    for loc in list(st.store):
                        if loc[0] == root and loc[1][:len(path)] == path:
                            old = st.store[loc]
                            if old[0] in ('i', 'u', 'd') or (old[0] == 's'):
                                st.store[loc] = DC
                    tt = self.T.parse(at)
                    if tt[0] == 'ptr' and tt[1][0] == 'rec':
                        for p, ft in self.leaves(tt[1][1]):
                            st.store.setdefault((root, path + p), DC)
                    else:
                        st.store.setdefault((root, path), DC)
        if t[0] == 'void':
            return [(st, DC)]
        if t[0] == 'rec':
            return [(st, SV({p: DC for p, _ in self.leaves(t[1])}))]
        if t[0] == 'ptr':
            return [(st, self.newsym(st, t))]
        if t[0] in ('int', 'enum'):
            return [(st, self.newsym(st, t))]
        return [(st, DC)]

    def inline(self, st, f, vs, n):
        frame = {}
        d = len(self.frames) + 1
        self.frames.append(frame)
        self.stack.append(f.name)
        try:
            for i, (pname, pty, pid, _) in enumerate(f.params):
                root = ('L', d, pid, pname)
                frame[pid] = root
                self.ltypes[root] = self.T.parse(pty)
                if i < len(vs):
                    v = vs[i]
                    if isinstance(v, SV):
                        for p, x in v.m.items():
                            st.store[(root, p)] = x
                    else:
                        if v[0] == 'sz':
                            v = DC
                        st.store[(root, ())] = v
            o = self.exec(f.body, [st])
        finally:
            self.frames.pop()
            self.stack.pop()
        res = o.r + [(s, DC) for s in o.n]
        out = []
        seen = {}
        for s, v in res:
            self.drop_frame(s, d)
            s.flags.pop('retline', None)
            v = self.cur_val(s, v)
            key = self.canon(s, (v,), leaks=n)
            if key in seen:
                continue
            seen[key] = True
            out.append((s, v))
        if len(out) > self.MAXSTATES:
            self.stats['capped'] += 1
            out = self.sample(out)
        return out

    def sample(self, lst):
        k = (len(lst) + self.MAXSTATES - 1) // self.MAXSTATES
        if k % 2 == 0:
            k += 1
        return lst[::k]

    def drop_frame(self, st, d):
        for loc in [x for x in st.store if isinstance(x[0], tuple) and x[0][0] == 'L' and x[0][1] >= d]:
            del st.store[loc]

    # -- canonical form, leak detection --------------------------------------------
    def rp(self, x):
        r = self.rcache.get(x)
        if r is None:
            r = repr(x)
            self.rcache[x] = r
        return r

    def canon(self, st, extra=(), leaks=None):
        """Drop what is unreachable (checking it for leaks) and return a key
        that is equal for states equal up to renaming."""
        self.stats['joins'] += 1
        by = {}
        for loc, v in st.store.items():
            d = by.get(loc[0])
            if d is None:
                by[loc[0]] = {loc[1]: v}
            else:
                d[loc[1]] = v
        # the ordering of locals is by root id (frame, decl)
        num = {}
        order = []
        snum = {}
        sorder = []

        def vkey(v):
            if isinstance(v, SV):
                return ('SV',) + tuple((p, vkey(x)) for p, x in sorted(v.m.items(), key=lambda t: self.rp(t[0])))
            k = v[0]
            if k == 's':
                i = snum.get(v[1])
                if i is None:
                    i = len(snum); snum[v[1]] = i; sorder.append(v[1])
                return ('s', i, v[2])
            if k == 'p':
                root, path = v[1]
                if root.__class__ is tuple:
                    r = root
                else:
                    r = num.get(root)
                    if r is None:
                        r = len(num); num[root] = r; order.append(root)
                if path:
                    path = tuple([('#', vkey(x[1])) if x.__class__ is tuple else x for x in path])
                return ('p', r, path)
            if k == 'arr':
                return ('arr',) + tuple(vkey(x) for x in v[1])
            return v
        parts = []
        add = parts.append
        ex = []
        for v in extra:
            if v is None:
                continue
            if not isinstance(v, SV) and v[0] == 'arr':
                continue
            ex.append(vkey(self.cur_val(st, v)))
        rp = self.rp
        rc = self.rcache.__getitem__

        def emit(r, d):
            if len(d) == 1:
                for q, v in d.items():
                    add((r, q, v if v[0] == 'i' else vkey(v)) if v.__class__ is tuple else (r, q, vkey(v)))
                return
            try:
                qs = sorted(d, key=rc)
            except KeyError:
                for q in d:
                    rp(q)
                qs = sorted(d, key=rc)
            for q in qs:
                v = d[q]
                if v.__class__ is tuple:
                    k = v[0]
                    if k == 's':
                        i = snum.get(v[1])
                        if i is None:
                            i = len(snum); snum[v[1]] = i; sorder.append(v[1])
                        add((r, q, ('s', i, v[2])))
                    elif k == 'p' or k == 'arr':
                        add((r, q, vkey(v)))
                    else:
                        add((r, q, v))
                else:
                    add((r, q, vkey(v)))
        lroots = sorted([r for r in by if r.__class__ is tuple], key=rp)
        for r in lroots:
            emit(r, by[r])
        for nm, v in sorted(st.flags.items()):
            if nm == 'subst':
                continue
            if nm.startswith('$'):
                add((nm, vkey(v)))
            else:
                add((nm, repr(v)))
        i = 0
        objs = st.objs
        while i < len(order):
            r = order[i]
            i += 1
            o = objs.get(r)
            add(('o', num[r], o.key() if o is not None else None))
            d = by.get(r)
            if d:
                emit(num[r], d)
        # unreachable objects
        un = [r for r in st.objs if r not in num]
        usym = [s for s in st.syms if s not in snum]
        if un or usym:
            self.account(st, un, usym, leaks, num)
            dead = set(un)
            self.outlive(st, dead, set(usym))
            for loc in [l for l in st.store if l[0] in dead]:
                del st.store[loc]
            for r in un:
                del st.objs[r]
            for s in usym:
                del st.syms[s]
            if st.memo:
                for k in list(st.memo):
                    bad = False
                    for x in k[1:]:
                        if type(x) is tuple:
                            if x[0] == 's' and x[1] not in snum: bad = True
                            if x[0] == 'p' and x[1][0] not in num and not isinstance(x[1][0], tuple): bad = True
                    if bad:
                        del st.memo[k]
        for s in sorder:
            f = st.syms.get(s)
            parts.append(('f', snum[s], f.key() if f is not None else None))
        if st.memo:
            mm = []
            for k, v in st.memo.items():
                if k[0] == 'sizeof':
                    continue
                if k[0] == 'rev':
                    v = tuple(vkey(x) if x[0] != 's' or x[1] in snum else None for x in v)
                mm.append((k[0],) + tuple(vkey(x) if type(x) is tuple and x and x[0] in ('s', 'p') else x for x in k[1:]) + (v,))
            mm.sort(key=repr)
            parts.append(tuple(mm))
        if st.edges:
            ed = [(num.get(a, a), num.get(b, b)) for a, b in st.edges if a in num and b in num]
            parts.append(tuple(sorted(ed, key=repr)))
            st.edges = frozenset((a, b) for a, b in st.edges if a in num and b in num)
        parts.append((st.kmin, st.kmax))
        if st.inc:
            st.inc = frozenset(l for l in st.inc if isinstance(l[0], tuple) or l[0] in num)
        st.flags.pop('subst', None)
        return (tuple(parts), tuple(ex))

    def holders(self, st):
        """{root or ('s',id): number of owning cells that refer to it}"""
        h = {}
        esp, beyond = self.arrays(st)
        for loc, v in st.store.items():
            if v[0] not in ('p', 's'):
                continue
            if isinstance(loc[0], tuple):
                continue
            o = st.objs.get(loc[0])
            if o is None or o.dead or o.dc:
                continue
            cs = self.cellspec(loc[1], esp.get(loc[0]))
            if cs is None or cs == 'edge':
                continue
            if loc[0] in beyond and loc[1] and loc[1][0] == '[K]':
                continue
            k = ('s', v[1]) if v[0] == 's' else v[1][0]
            h[k] = h.get(k, 0) + 1
        return h

    def arrays(self, st):
        """What the elements of arrays are to their holders, and the arrays
        that end before the element looked at."""
        esp = {}
        beyond = set()
        for r, o in st.objs.items():
            if o.esp:
                esp[r] = o.esp
        for loc, v in st.store.items():
            if v[0] == 'p' and loc[1] and isinstance(loc[1][-1], str) and loc[1][-1].endswith('.xs') and not v[1][1]:
                sv = st.store.get((loc[0], loc[1][:-1] + (loc[1][-1][:-3] + '.size',)))
                if sv is not None and sv[0] in ('i', 's') and not self.kmask(st, sv) & G:
                    beyond.add(v[1][0])
        # array element specs come from the holder's field
        work = True
        for loc, v in st.store.items():
            if v[0] in ('p', 's') and not isinstance(loc[0], tuple):
                o = st.objs.get(loc[0])
                if o is None or o.dead:
                    continue
                cs = self.cellspec(loc[1], esp.get(loc[0]))
                if type(cs) is tuple and v[0] == 'p' and not v[1][1]:
                    esp.setdefault(v[1][0], cs[1])
        return esp, beyond

    def outlive(self, st, dead, usym):
        """What dropped objects own is held by the outside world from now on."""
        esp = beyond = None
        for loc in st.store:
            if loc[0] in dead:
                v = st.store[loc]
                if v[0] not in ('p', 's'):
                    continue
                if esp is None:
                    esp, beyond = self.arrays(st)
                if loc[0] in beyond and loc[1] and loc[1][0] == '[K]':
                    continue
                if v[0] == 'p' and v[1][0] not in dead and v[1][0] in st.objs and not v[1][1]:
                    o = st.objs[loc[0]]
                    if o.dead or o.dc:
                        continue
                    cs = self.cellspec(loc[1], esp.get(loc[0]))
                    if cs == 'own' or type(cs) is tuple:
                        t = st.objs[v[1][0]]
                        if t.own:
                            st.objs[v[1][0]] = t.upd(own=t.own - 1, b=True)
                elif v[0] == 's' and v[1] in st.syms and v[1] not in usym:
                    o = st.objs[loc[0]]
                    if o.dead or o.dc:
                        continue
                    cs = self.cellspec(loc[1], esp.get(loc[0]))
                    if cs == 'own' or type(cs) is tuple:
                        t = st.syms[v[1]]
                        if t.ty[0] == 'ptr' and t.own:
                            st.syms[v[1]] = t.upd(own=t.own - 1, b=True)

    def account(self, st, un, usym, node, num):
        h = None
        for r in un:
            o = st.objs[r]
            if o.own is None or o.dc or o.kind == 'local':
                continue
            if o.own == 0:
                continue
            if h is None:
                h = self.holders(st)
            c = h.get(r, 0)
            if o.own > c:
                self.leak(st, r, o, node)
        for s in usym:
            f = st.syms[s]
            if f.ty[0] != 'ptr' or not f.own or f.dc:
                continue
            if h is None:
                h = self.holders(st)
            if f.own > h.get(('s', s), 0):
                if 0 not in f.neq and self.spec.leak_needs_nonnull:
                    pass
                self.viol(st, 'leak', node, 'a value of type %s is dropped without being released' % self.tyname(f.ty), key='leak %s' % self.tyname(f.ty))

    def tyname(self, t):
        if t[0] == 'ptr':
            return self.tyname(t[1]) + '*'
        return str(t[1]) if len(t) > 1 else t[0]

    def leak(self, st, r, o, node):
        self.viol(st, 'leak', node, '%s obtained at %s is not released (or handed over) on this path' % (o.rec or 'memory', o.origin),
                  key='leak %s' % (o.origin,))

    # -- statements -------------------------------------------------------------
    def dedupe(self, states, node=None):
        if len(states) <= 1:
            for s in states:
                if len(s.objs) > 60 or len(s.syms) > 200:
                    self.canon(s, (), leaks=node)
                # substitution maps are only needed within one expression
                s.flags.pop('subst', None)
            return states
        seen = set()
        out = []
        for s in states:
            k = self.canon(s, (), leaks=node)
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.MAXSTATES:
            self.stats['capped'] += 1
            out = self.sample(out)
        return out

    def exec(self, n, states):
        if n is None:
            return Out(states)
        self.stats['stmts'] += len(states)
        if self.stats['stmts'] > self.MAXSTEPS:
            raise Budget()
        m = getattr(self, 's_' + n.k, None)
        if m is not None:
            return m(n, states)
        # expression statement
        o = Out()
        for s in states:
            for s2, v in self.eval(n, s):
                self.discard(s2, v, n)
                o.n.append(s2)
        if len(o.n) > 1:
            o.n = self.dedupe(o.n, n)
        else:
            for s in o.n:
                s.flags.pop('subst', None)
        return o

    def discard(self, st, v, n):
        """A call result nobody takes."""
        if isinstance(v, SV) or n.k != 'CallExpr':
            return
        v = self.cur_val(st, v)
        if v[0] == 'p':
            o = st.objs.get(v[1][0])
            if o is not None and o.own and not o.dc and not o.b and o.own > 0 and not self.refs_to(st, v[1][0]):
                self.leak(st, v[1][0], o, n)

    def refs_to(self, st, r):
        for v in st.store.values():
            if v[0] == 'p' and v[1][0] == r:
                return True
        return False

    def s_NullStmt(self, n, states):
        return Out(states)

    def s_CompoundStmt(self, n, states):
        o = Out()
        cur = states
        for c in n.c:
            if not cur:
                # labels / cases are handled by the switch walker
                break
            r = self.exec(c, cur)
            o.b.extend(r.b); o.c.extend(r.c); o.r.extend(r.r)
            cur = r.n
        o.n = cur
        # leaving the block: its variables die
        decls = [d for c in n.c if c is not None and c.k == 'DeclStmt' for d in c.c if d is not None and d.k == 'VarDecl']
        if decls and self.frames:
            roots = [self.frames[-1].get(d.id) for d in decls]
            roots = set(r for r in roots if r is not None)
            for lst in (o.n, o.b, o.c):
                for s in lst:
                    self.kill(s, roots)
            if o.n:
                for s in o.n:
                    if len(o.n) == 1:
                        self.canon(s, (), leaks=n.c[-1])
                o.n = self.dedupe(o.n, n.c[-1])
        return o

    def kill(self, st, roots):
        dead = [l for l in st.store if l[0] in roots]
        for l in dead:
            del st.store[l]

    def s_DeclStmt(self, n, states):
        o = Out(states)
        for d in n.c:
            if d is None or d.k != 'VarDecl':
                continue
            root = ('L', len(self.frames), d.id, d.name)
            if d.op == 'static':
                root = ('G', d.name)
            self.frames[-1][d.id] = root
            t = self.T.parse(d.ty)
            self.ltypes[root] = t
            nxt = []
            for s in o.n:
                if root[0] == 'L':
                    self.kill(s, {root})
                if d.c and d.c[0] is not None and root[0] == 'L':
                    for s2, v in self.eval(d.c[0], s):
                        v = self.cur_val(s2, v)
                        if isinstance(v, SV):
                            if d.c[0].k == 'InitListExpr' or d.c[0].k == 'CompoundLiteralExpr':
                                for p, lt in self.leaves(t[1]) if t[0] == 'rec' else ():
                                    s2.store[(root, p)] = v.m.get(p, NULL if lt[0] in ('ptr', 'int', 'enum') else DC)
                            else:
                                for p, x in v.m.items():
                                    s2.store[(root, p)] = x
                            nxt.append(s2)
                        elif v[0] == 'arr':
                            nxt.extend(self.store_array(s2, (root, ()), v, d))
                        elif t[0] == 'rec' and v[0] == 'p':
                            for s3, sv in self.load_struct(s2, v[1], t[1], d):
                                for p, x in sv.m.items():
                                    s3.store[(root, p)] = x
                                nxt.append(s3)
                        elif t[0] == 'arr':
                            nxt.append(s2)
                        else:
                            if v[0] == 'sz':
                                v = DC
                            s2.store[(root, ())] = v
                            nxt.append(s2)
                else:
                    if t[0] == 'rec':
                        pass
                    elif t[0] == 'arr':
                        pass
                    elif root[0] == 'L':
                        s.store[(root, ())] = UN
                    nxt.append(s)
            o.n = self.dedupe(nxt, n) if len(nxt) > 1 else nxt
            for s in o.n:
                s.flags.pop('subst', None)
        return o

    def store_array(self, st, loc, v, node):
        states = [st]
        for i, x in enumerate(v[1]):
            nxt = []
            for s in states:
                if isinstance(x, SV) or x[0] in ('p', 's'):
                    nxt.extend(self.store(s, (loc[0], loc[1] + (('#', ('i', i)),)), x, node))
                else:
                    nxt.append(s)
            states = nxt
        return states

    def s_IfStmt(self, n, states):
        o = Out()
        T, F = [], []
        for s in states:
            t, f = self.branch(n.c[0], s)
            T.extend(t); F.extend(f)
        ln = n.line
        T = self.dedupe(T, n); F = self.dedupe(F, n)
        for s in T:
            s.note(ln, 'T')
        for s in F:
            s.note(ln, 'F')
        if T:
            r = self.exec(n.c[1], T)
            o.n.extend(r.n); o.b.extend(r.b); o.c.extend(r.c); o.r.extend(r.r)
        if F:
            if len(n.c) > 2 and n.c[2] is not None:
                r = self.exec(n.c[2], F)
                o.n.extend(r.n); o.b.extend(r.b); o.c.extend(r.c); o.r.extend(r.r)
            else:
                o.n.extend(F)
        o.n = self.dedupe(o.n, n)
        return o

    # loops
    def s_ForStmt(self, n, states):
        init, _, cond, inc, body = n.c
        o = Out()
        cur = states
        if init is not None:
            r = self.exec(init, cur)
            cur = r.n
        res = self.loop(n, cur, cond, inc, body, True)
        if init is not None and init.k == 'DeclStmt':
            roots = {self.frames[-1].get(d.id) for d in init.c if d is not None and d.k == 'VarDecl'}
            for lst in (res.n, res.c, res.b):
                for s in lst:
                    self.kill(s, roots)
            res.n = self.dedupe(res.n, n)
        return res

    def s_WhileStmt(self, n, states):
        return self.loop(n, states, n.c[-2], None, n.c[-1], True)

    def s_DoStmt(self, n, states):
        return self.loop(n, states, n.c[1], None, n.c[0], False)

    def loop(self, n, states, cond, inc, body, pre):
        o = Out()
        seen = set()
        work = []
        idx0 = self.loop_index(n, cond, inc, body) if pre else None
        if idx0 is not None:
            for s in states:
                self.enter_array(s, idx0[0], n)
        exits = []
        def push(lst):
            for s in lst:
                k = self.canon(s, (), leaks=n)
                if k not in seen:
                    seen.add(k)
                    work.append(s)
        push(states)
        it = 0
        while work:
            it += 1
            if it > self.MAXITER or len(seen) > self.MAXSTATES * 2:
                self.stats['capped'] += 1
                break
            batch, work[:] = list(work), []
            for s in batch:
                head = dict(s.store)
                hinc = s.inc
                s.inc = frozenset()
                if pre:
                    if cond is not None:
                        T, F = self.branch(cond, s)
                    else:
                        T, F = [s], []
                    for f in F:
                        f.inc = hinc
                    exits.extend(F)
                else:
                    T = [s]
                T = self.dedupe(T, n)
                for x in T:
                    x.note(n.line, 'loop')
                if not T:
                    continue
                idx = self.loop_index(n, cond, inc, body) if self.repmode and pre else None
                if self.repmode:
                    rep, non, unk = self.rep_split(n, T, idx) if idx is not None else ([], [], T)
                    r = self.exec(body, rep) if rep else Out()
                    if unk:
                        self.unkloop += 1
                        try:
                            r2 = self.exec(body, unk)
                        finally:
                            self.unkloop -= 1
                        r.n = r.n + r2.n; r.b = r.b + r2.b; r.c = r.c + r2.c; r.r = r.r + r2.r
                    if non:
                        self.nonrep += 1
                        try:
                            r2 = self.exec(body, non)
                        finally:
                            self.nonrep -= 1
                        r.n = r.n + r2.n; r.b = r.b + r2.b; r.c = r.c + r2.c; r.r = r.r + r2.r
                else:
                    r = self.exec(body, T)
                for b in r.b:
                    b.inc = b.inc | hinc
                exits.extend(r.b)
                o.r.extend(r.r)
                cont = r.n + r.c
                if not pre and cont:
                    T2, F2 = [], []
                    for c in cont:
                        t, f = self.branch(cond, c)
                        T2.extend(t); F2.extend(f)
                    exits.extend(F2)
                    cont = T2
                if inc is not None and cont:
                    nx = []
                    for c in cont:
                        for c2, _ in self.eval(inc, c):
                            c2.flags.pop('subst', None)
                            nx.append(c2)
                    cont = nx
                for c in cont:
                    for hk in self.hooks:
                        hk.on_backedge(self, c, head, n, cond)
                    self.widen(c, head, n)
                    c.inc = c.inc | hinc
                push(cont)
        o.n = self.dedupe(exits, n)
        for s in o.n:
            s.note(n.line, 'exit')
        return o

    def widen(self, st, head, node=None):
        """At a back edge: counters become fresh symbols (keeping their class
        relative to K and their mutual differences); list cursors are detached
        from the chain they walked."""
        groups = {}
        for loc in st.inc:
            v = st.store.get(loc)
            hv = head.get(loc)
            if v is None or hv is None or v == hv:
                continue
            if v[0] == 'p' and hv[0] == 'p' and self.same_array(v, hv) is not None and type(v[1][1][-1]) is tuple:
                hv, v = self.same_array(hv, v)
            if v[0] not in ('i', 's'):
                continue
            if hv[0] == v[0] and (v[0] == 'i' or v[1] == hv[1]):
                delta = v[-1] - hv[-1]
                key = (v[0], hv[1] if v[0] == 's' else None, delta)
            else:
                key = (v, )
            groups.setdefault(key, []).append((loc, v))
        for key, items in sorted(groups.items(), key=repr):
            items.sort(key=lambda t: repr(t[0]))
            vals = sorted(set(v for _, v in items), key=lambda v: v[-1])
            base = vals[0]
            mask = self.kmask(st, base)
            t = ('int', 'unsigned long')
            if base[0] == 's' and base[1] in st.syms:
                t = st.syms[base[1]].ty
            n = self.newsym(st, t, mask=mask, neq=frozenset([0]) if (base[0] == 'i' and base[1] > 0) or (base[0] == 's' and base[2] > 0) else frozenset())
            m = {}
            for loc, v in items:
                m[v] = ('s', n[1], v[-1] - base[-1]) if v[-1] - base[-1] <= 4 else None
            for loc, v in items:
                nv = m[v]
                if nv is None:
                    x = self.newsym(st, t, mask=self.kmask(st, v))
                    nv = x
                old = st.store[loc]
                st.store[loc] = self.with_index(old, nv) if old[0] == 'p' else nv
            # other cells with the same value follow (e.g. copies of the size)
            for loc, v in list(st.store.items()):
                if v in m and loc not in st.inc and head.get(loc) != v and m[v] is not None and v[0] == 's':
                    st.store[loc] = m[v]
        for loc in list(st.store):
            if isinstance(loc[0], tuple) and loc[0][0] == 'L' and not loc[1]:
                t = self.ltypes.get(loc[0])
                if loc in head and head[loc] != st.store[loc] and t is not None and t[0] == 'ptr' and t[1][0] == 'rec' and t[1][1] in self.spec.fold:
                    self.fold(st, loc, t, node)
        # list cursors
        for loc, v in list(st.store.items()):
            if v[0] == 'p' and isinstance(loc[0], tuple) and loc[0][0] == 'L' and not v[1][1]:
                hv = head.get(loc)
                if hv is None or hv == v or hv[0] != 'p':
                    continue
                self.detach(st, loc, v, hv)

    def fold(self, st, loc, t, node):
        """A work list carried over to the next iteration: everything hanging
        off it must be fully accounted for; then it is opaque again."""
        v = self.cur_val(st, st.store[loc])
        if v[0] != 'p' or isinstance(v[1][0], tuple):
            return
        h = self.holders(st)
        if t[1][1] != 'Cmd':
            o = st.objs.get(v[1][0])
            if o is None or o.own is None or o.own != h.get(v[1][0], 0) + 1:
                return
        R, todo = set(), [v[1][0]]
        rsyms = set()
        while todo:
            r = todo.pop()
            if r in R or r not in st.objs:
                continue
            R.add(r)
            for l, x in st.store.items():
                if l[0] == r:
                    x = self.cur_val(st, x)
                    if x[0] == 'p' and not isinstance(x[1][0], tuple):
                        cs = self.cellspec(l[1], st.objs[r].esp)
                        if cs is not None and cs != 'edge':
                            todo.append(x[1][0])
                    elif x[0] == 's':
                        rsyms.add(x[1])
        h[v[1][0]] = h.get(v[1][0], 0) + 1
        for r in sorted(R):
            o = st.objs[r]
            if o.own is None or o.dc:
                continue
            c = h.get(r, 0)
            if o.dead:
                self.viol(st, 'dangling', node, '%s obtained at %s was released at line %s but is still queued' % (o.rec or 'memory', o.origin, o.dead), key='dangling %s' % (o.origin,))
            elif o.own > c:
                self.leak(st, r, o, node)
            elif o.own < c:
                self.viol(st, 'unowned', node, '%s (%s) is queued without a reference of its own' % (o.rec or 'memory', o.origin or 'borrowed'), key='unowned %s' % (o.origin,))
        for i in sorted(rsyms):
            f = st.syms.get(i)
            if f is None or f.ty[0] != 'ptr' or f.own is None or f.dc:
                continue
            c = h.get(('s', i), 0)
            if f.own > c:
                self.viol(st, 'leak', node, 'a value of type %s is not released (or handed over) on this path' % self.tyname(f.ty), key='leak %s' % self.tyname(f.ty))
            elif f.own < c:
                self.viol(st, 'unowned', node, 'a value of type %s is queued without a reference of its own' % self.tyname(f.ty), key='unowned %s' % self.tyname(f.ty))
        n = self.newsym(st, t, own=1, b=False, neq=frozenset([0]))
        if t[1][1] == 'Cmd':
            st.kmin, st.kmax = State().kmin, State().kmax
        for l in list(st.store):
            if l == loc:
                st.store[l] = n
            elif l[0] in R:
                del st.store[l]
            else:
                x = st.store[l]
                if x[0] == 'p' and x[1][0] in R:
                    st.store[l] = DC
                elif x[0] == 's' and x[1] in rsyms and isinstance(l[0], tuple):
                    st.store[l] = DC
        for r in R:
            del st.objs[r]
        for i in rsyms:
            if i in st.syms and st.syms[i].ty[0] == 'ptr' and not any(x[0] == 's' and x[1] == i for x in st.store.values()):
                del st.syms[i]
        for l in list(st.store):
            # other locals of this iteration say nothing about the next
            if isinstance(l[0], tuple) and l[0][0] == 'L' and l != loc:
                x = st.store[l]
                if x[0] == 'p' and not isinstance(x[1][0], tuple) and x[1][0] not in st.objs:
                    st.store[l] = DC

    def detach(self, st, loc, v, hv):
        r = v[1][0]
        o = st.objs.get(r)
        if o is None or o.kind != 'ext' or o.dc or o.dead:
            return
        # reached from an external object by a borrowing link that the loop followed
        src = [l for l, x in st.store.items() if x == v and l != loc and not isinstance(l[0], tuple)]
        if o.own == 0 and o.b:
            for l in src:
                po = st.objs.get(l[0])
                if po is not None and po.kind == 'ext':
                    del st.store[l]
        elif o.own and len(src) == 1:
            po = st.objs.get(src[0][0])
            if po is not None and po.kind == 'ext' and not po.dead and o.own == 1:
                # an owned link inside an external structure: walk on, leave it whole
                del st.store[src[0]]
                st.objs[r] = o.upd(own=0, b=True)

    # switch
    def s_SwitchStmt(self, n, states):
        o = Out()
        cond = n.c[0]
        body = n.c[-1]
        labels = []   # (node, value or None)
        def find(x):
            if x is None:
                return
            if x.k == 'CaseStmt':
                labels.append((x, self.const(x.c[0]))); find(x.c[-1]); return
            if x.k == 'DefaultStmt':
                labels.append((x, None)); find(x.c[-1]); return
            if x.k == 'SwitchStmt':
                return
            if x.k in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'LabelStmt'):
                for c in x.c:
                    find(c)
        find(body)
        entry = {}
        default = None
        after = []
        for node, val in labels:
            if val is None:
                default = node
        for s0 in states:
            for s, v in self.eval(cond, s0):
                v = self.cur_val(s, v)
                if v[0] == 'u':
                    self.viol(s, 'uninit-read', n, 'switches on a value before it is set', key='usw')
                    v = DC
                rest = s
                alive = True
                for node, val in labels:
                    if val is None or not alive:
                        continue
                    cv = self.cur_val(rest, v)
                    if cv[0] == 'i':
                        if cv[1] == val:
                            entry.setdefault(id(node), []).append(rest)
                            alive = False
                        continue
                    t = rest.copy()
                    if self.assume_eq(t, cv, ('i', val)):
                        t.note(node.line, 'case')
                        entry.setdefault(id(node), []).append(t)
                    if not self.assume_ne(rest, cv, ('i', val)):
                        alive = False
                if alive:
                    if default is not None:
                        rest.note(default.line, 'default')
                        entry.setdefault(id(default), []).append(rest)
                    else:
                        # an enum whose constants are all covered has no other value
                        t = self.T.parse(self.strip(cond).ty)
                        covered = False
                        if t[0] == 'enum':
                            vals = set(x for _, x in self.tu.enums.get(t[1], ()))
                            covered = vals and vals <= set(v2 for _, v2 in labels if v2 is not None)
                        if not covered:
                            after.append(rest)
        self.swentry.append(entry)
        r = self.walk_switch(body, [], entry)
        self.swentry.pop()
        o.n = self.dedupe(r.n + r.b + after, n)
        o.c = r.c; o.r = r.r
        return o

    def strip(self, n):
        while n.k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.op in ('IntegralCast', 'LValueToRValue', 'NoOp'):
            n = n.c[0]
        return n

    def isconst(self, n):
        while n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'ParenExpr') and n.c:
            n = n.c[-1]
        return n.k in ('IntegerLiteral', 'CharacterLiteral', 'UnaryExprOrTypeTraitExpr') or n.k == 'DeclRefExpr' and n.val == 'EnumConstantDecl'

    def const(self, n):
        n2 = n
        while n2.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'):
            n2 = n2.c[0]
        if n2.k == 'DeclRefExpr' and n2.val == 'EnumConstantDecl':
            return self.tu.enum_val[n2.name]
        if n2.k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n2.val)
        if n2.k == 'UnaryOperator' and n2.op == '-':
            return -self.const(n2.c[0])
        raise Broken('unsupported case constant at %s:%s' % (n.file, n.line))

    def walk_switch(self, n, cur, entry):
        """Execute a switch body sequentially with entries at its labels."""
        if n is None:
            return Out(cur)
        if n.k in ('CaseStmt', 'DefaultStmt'):
            cur = self.dedupe(cur + entry.get(id(n), []), n)
            return self.walk_switch(n.c[-1], cur, entry)
        if n.k == 'CompoundStmt' and any(c is not None and self.has_label(c) for c in n.c):
            o = Out()
            for c in n.c:
                r = self.walk_switch(c, cur, entry)
                o.b.extend(r.b); o.c.extend(r.c); o.r.extend(r.r)
                cur = r.n
            o.n = cur
            decls = [d for c in n.c if c is not None and c.k == 'DeclStmt' for d in c.c if d is not None and d.k == 'VarDecl']
            return o
        if not cur:
            return Out([])
        return self.exec(n, cur)

    def has_label(self, n):
        if n is None:
            return False
        if n.k in ('CaseStmt', 'DefaultStmt'):
            return True
        if n.k in ('CompoundStmt',):
            return any(self.has_label(c) for c in n.c)
        return False

    def s_CaseStmt(self, n, states):
        return self.exec(n.c[-1], states)

    def s_DefaultStmt(self, n, states):
        return self.exec(n.c[-1], states)

    def s_BreakStmt(self, n, states):
        o = Out(); o.b = states; return o

    def s_ContinueStmt(self, n, states):
        o = Out(); o.c = states; return o

    def s_LabelStmt(self, n, states):
        return self.exec(n.c[0], states)

    def s_GotoStmt(self, n, states):
        if self.gotos is not None:
            self.gotos.extend((s, n) for s in states)
            return Out([])
        raise Broken('goto is not supported at %s:%s' % (n.file, n.line))

    def s_ReturnStmt(self, n, states):
        o = Out()
        for s in states:
            if n.c and n.c[0] is not None:
                rec = self.isrec(n.c[0].ty)
                for s2, v in self.eval(n.c[0], s):
                    v = self.cur_val(s2, v)
                    if rec and not isinstance(v, SV) and v[0] == 'p':
                        for s3, sv in self.load_struct(s2, v[1], rec, n):
                            o.r.append((self.fin(s3, n), sv))
                        continue
                    if not isinstance(v, SV) and v[0] == 'u':
                        self.viol(s2, 'uninit-read', n, 'returns a value before it is set', key='uret')
                    o.r.append((self.fin(s2, n), v))
            else:
                o.r.append((self.fin(s, n), DC))
        seen = set()
        out = []
        for s, v in o.r:
            k = self.canon(s, (v,) if not (not isinstance(v, SV) and v[0] == 'arr') else ())
            # canon drops nothing live here: locals are still in scope
            if k not in seen:
                seen.add(k); out.append((s, v))
        o.r = out
        return o

    def fin(self, s, n):
        s.flags['retline'] = (n.file, n.line)
        return s

    # -- analysis of one function ---------------------------------------------------
    def analyse(self, f, setup=None, finish=None):
        """Analyse one root function. setup(engine, st, frame) prepares the
        parameters, finish(engine, st, value, node) checks an exit."""
        self.cur = f
        self.repmode = any(h.rep for h in self.hooks)
        self.nonrep = 0
        self.unkloop = 0
        self.frames = [{}]
        self.swentry = []
        self.stack = [f.name]
        self.stats['stmts'] = 0
        st = State()
        frame = self.frames[0]
        for (pname, pty, pid, _) in f.params:
            frame[pid] = ('L', 1, pid, pname)
            self.ltypes[frame[pid]] = self.T.parse(pty)
        states = setup(self, st, f, frame) if setup else [st]
        o = self.exec(f.body, states)
        exits = o.r + [(s, DC) for s in o.n]
        self.stats['exits'] += len(exits)
        for s, v in exits:
            node = N('exit')
            rl = s.flags.get('retline')
            node.file, node.line = rl if rl else (f.file, f.line)
            if finish:
                finish(self, s, v, node)
        return len(exits)
