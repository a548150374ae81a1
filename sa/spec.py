"""What the code of ruhler/fable promises: ownership of fields, tags of node
kinds, and the contracts of its functions.  Every contract of a function with
a body in /repo is itself checked against that body (see roots.py)."""
import re
from engine import SV, NULL, DC, UN, Sym, Obj, L, E, G

# ---------------------------------------------------------------------------
# node kinds: record -> (tag cell, enumerator)
TAGS = {}


def _tags(cell, **kw):
    for r, c in kw.items():
        TAGS[r] = (cell, c)


_tags('FbleType.tag', FbleDataType='FBLE_DATA_TYPE', FbleFuncType='FBLE_FUNC_TYPE', FblePolyType='FBLE_POLY_TYPE',
      FblePolyApplyType='FBLE_POLY_APPLY_TYPE', FblePackageType='FBLE_PACKAGE_TYPE', FbleAbstractType='FBLE_ABSTRACT_TYPE',
      FbleVarType='FBLE_VAR_TYPE', FbleTypeType='FBLE_TYPE_TYPE')
_tags('FbleKind.tag', FbleBasicKind='FBLE_BASIC_KIND', FblePolyKind='FBLE_POLY_KIND')
_tags('FbleTc.tag', FbleTypeValueTc='FBLE_TYPE_VALUE_TC', FbleVarTc='FBLE_VAR_TC', FbleLetTc='FBLE_LET_TC',
      FbleStructValueTc='FBLE_STRUCT_VALUE_TC', FbleStructCopyTc='FBLE_STRUCT_COPY_TC', FbleUnionValueTc='FBLE_UNION_VALUE_TC',
      FbleUnionSelectTc='FBLE_UNION_SELECT_TC', FbleDataAccessTc='FBLE_DATA_ACCESS_TC', FbleFuncValueTc='FBLE_FUNC_VALUE_TC',
      FbleFuncApplyTc='FBLE_FUNC_APPLY_TC', FbleListTc='FBLE_LIST_TC', FbleLiteralTc='FBLE_LITERAL_TC')
_tags('FbleExpr.tag', FbleTypeofExpr='FBLE_TYPEOF_EXPR', FbleVarExpr='FBLE_VAR_EXPR', FbleLetExpr='FBLE_LET_EXPR',
      FbleDataTypeExpr='FBLE_DATA_TYPE_EXPR', FbleDataAccessExpr='FBLE_DATA_ACCESS_EXPR',
      FbleStructValueImplicitTypeExpr='FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR', FbleStructCopyExpr='FBLE_STRUCT_COPY_EXPR',
      FbleUnionValueExpr='FBLE_UNION_VALUE_EXPR', FbleUnionSelectExpr='FBLE_UNION_SELECT_EXPR', FbleFuncTypeExpr='FBLE_FUNC_TYPE_EXPR',
      FbleFuncValueExpr='FBLE_FUNC_VALUE_EXPR', FblePolyValueExpr='FBLE_POLY_VALUE_EXPR', FblePolyApplyExpr='FBLE_POLY_APPLY_EXPR',
      FbleListExpr='FBLE_LIST_EXPR', FbleLiteralExpr='FBLE_LITERAL_EXPR', FbleModulePathExpr='FBLE_MODULE_PATH_EXPR',
      FblePackageTypeExpr='FBLE_PACKAGE_TYPE_EXPR', FbleAbstractCastExpr='FBLE_ABSTRACT_CAST_EXPR',
      FbleAbstractAccessExpr='FBLE_ABSTRACT_ACCESS_EXPR', FbleApplyExpr='FBLE_MISC_APPLY_EXPR')
INSTR = {'FbleStructValueInstr': ('FBLE_STRUCT_VALUE_INSTR',), 'FbleUnionValueInstr': ('FBLE_UNION_VALUE_INSTR',),
         'FbleAccessInstr': ('FBLE_STRUCT_ACCESS_INSTR', 'FBLE_UNION_ACCESS_INSTR'), 'FbleUnionSelectInstr': ('FBLE_UNION_SELECT_INSTR',),
         'FbleGotoInstr': ('FBLE_GOTO_INSTR',), 'FbleFuncValueInstr': ('FBLE_FUNC_VALUE_INSTR',), 'FbleCallInstr': ('FBLE_CALL_INSTR',),
         'FbleTailCallInstr': ('FBLE_TAIL_CALL_INSTR',), 'FbleCopyInstr': ('FBLE_COPY_INSTR',), 'FbleRefValueInstr': ('FBLE_REF_VALUE_INSTR',),
         'FbleRefDefInstr': ('FBLE_REF_DEF_INSTR',), 'FbleReturnInstr': ('FBLE_RETURN_INSTR',), 'FbleTypeInstr': ('FBLE_TYPE_INSTR',),
         'FbleListInstr': ('FBLE_LIST_INSTR',), 'FbleLiteralInstr': ('FBLE_LITERAL_INSTR',), 'FbleNopInstr': ('FBLE_NOP_INSTR',)}
for _r, _c in INSTR.items():
    if len(_c) == 1:
        TAGS[_r] = ('FbleInstr.tag', _c[0])
_tags('Cmd.tag', EvalCmd='EVAL_CMD', DefineCmd='DEFINE_CMD', LetCmd='LET_CMD', IfCmd='IF_CMD', ErrorCmd='ERROR_CMD', HeadCmd='HEAD_CMD',
      TailCmd='TAIL_CMD', PlainCmd='PLAIN_CMD')
BASES = {'Cmd', 'FbleType', 'FbleKind', 'FbleTc', 'FbleExpr', 'FbleInstr', 'FbleDebugInfo'}
_tags('FbleDebugInfo.tag', FbleStatementDebugInfo='FBLE_STATEMENT_DEBUG_INFO', FbleVarDebugInfo='FBLE_VAR_DEBUG_INFO')

TYPE_RECS = {'FbleType'} | {r for r, (c, _) in TAGS.items() if c == 'FbleType.tag'}
# records whose objects are owned through a pointer: each has a release function
OWNED = {'FbleProfileOp', 'FbleLoadedProgram', 'FbleCompiledModule', 'FbleCompiledProgram', 'FbleSearchPath', 'FbleProfile',
         'FbleProfileThread', 'FbleBlockProfile', 'FbleCallData', 'FbldMarkup', 'FbldText', 'Env', 'Cmd', 'FbleTypeHeap', 'FbleValueHeap',
         'FbleString', 'FbleModulePath', 'FbleTc', 'FbleExpr', 'FbleKind', 'FbleCode', 'FbleInstr', 'FbleDebugInfo'} | TYPE_RECS | \
        {r for r, (c, _) in TAGS.items()} | {'FbleAccessInstr'}

TYPE_FIELDS = {'FbleTaggedType', 'FbleDataType', 'FbleFuncType', 'FblePackageType', 'FbleAbstractType', 'FbleVarType', 'FblePolyType',
               'FblePolyApplyType', 'FbleTypeType'}

REFCOUNTS = {'FbleString.refcount', 'FbleModulePath.refcount', 'FbleKind.refcount', 'FbleTc.refcount', 'FbleCode.refcount',
             'FbldMarkup.refcount', 'Env.refcount', 'Local.refcount'}

# exceptions to the default "a pointer to an owned kind is an owned field"
OVERRIDE = {
    'FbleTypeAssignment.var': 'borrow',
    'TypeList.type': 'borrow', 'TypePairs.a': 'borrow', 'TypePairs.b': 'borrow', 'TypeList.next': 'borrow', 'TypePairs.next': 'borrow',
    'FbleLiteralExpr.word': 'own',
    # generated modules are static data
    'FbleGeneratedModule.path': 'borrow', 'FbleGeneratedModule.deps': 'borrow', 'FbleGeneratedModule.profile_blocks': 'borrow',
    'FbleGeneratedModuleV.xs': ('vec', None),
    'FbleCodeV.xs': ('vec', None), 'FbldTextV.xs': ('vec', 'own'),
    'FbleInstr.profile_ops': 'own',
    'Cmd.dest': 'borrow',
    'Block.code': 'borrow',
}


# pointers that every construction of the record sets
NONNULL = {'FbleTaggedExpr.expr'}
# a plain pointer to a pointer to these is a place that owns what it holds
POINTERS = {'FbleProfileOp', 'FbldMarkup', 'FbldText'}


class Spec(object):
    def use(self, eng, st, v, n):
        return use(eng, st, v, n)

    leak_needs_nonnull = False

    def __init__(self, extra=None, override=None, owned=()):
        self.h = dict(HANDLERS)
        if extra:
            self.h.update(extra)
        self.over = dict(OVERRIDE)
        if override:
            self.over.update(override)
        self.owned = OWNED | set(owned)
        self.pp = POINTERS
        self.defcache = {}
        self.fold = {'Cmd', 'Env'}

    def handler(self, name):
        return self.h.get(name)

    def tag_of(self, rec):
        return TAGS.get(rec)

    def is_refcount(self, fld):
        return fld in REFCOUNTS

    def maynull(self, path):
        return not (path and path[-1] in NONNULL)

    def noinit(self, eng, loc, t, o):
        # flexible character arrays and the like are filled by libc calls
        return t[0] in ('arr', 'fn', 'flt')

    def field_override(self, el):
        return self.over.get(el)

    def field_default(self, eng, el):
        r = self.defcache.get(el, 0)
        if r != 0:
            return r
        r = None
        if isinstance(el, str) and '.' in el:
            rn, fn = el.split('.', 1)
            rec = eng.T.record(rn)
            if rec is not None:
                for f, ty, _ in rec.fields:
                    if f == fn:
                        t = eng.T.parse(ty)
                        if t[0] == 'ptr':
                            if fn == 'xs':
                                e = t[1]
                                if e[0] == 'ptr' and e[1][0] == 'rec' and e[1][1] in self.owned:
                                    r = ('vec', 'own')
                                elif e[0] == 'rec':
                                    r = ('vec', 'rec')
                                else:
                                    r = ('vec', None)
                            elif t[1][0] == 'rec' and t[1][1] in self.owned:
                                r = 'edge' if (rn in TYPE_FIELDS and t[1][1] in TYPE_RECS) else 'own'
        self.defcache[el] = r
        return r


# ---------------------------------------------------------------------------
# primitives
def resolve_root(eng, st, v, n):
    """Non-null pointer value -> root, or None when not tracked."""
    v = eng.cur_val(st, v)
    if v[0] == 's':
        s = st.syms.get(v[1])
        if s is None or s.dc or v[2] != 0 or s.ty[0] != 'ptr':
            return None
        return eng.resolve(st, v, None, n)
    if v[0] == 'p':
        return v[1][0]
    return None


def copyval(eng, st, v, n, depth=0):
    """Take one more reference to each owned leaf. Mutates; returns value or None if the path ends."""
    v = eng.cur_val(st, v)
    if isinstance(v, SV):
        m = {}
        for p, x in v.m.items():
            cs = eng.cellspec(p)
            if cs == 'own' and x[0] in ('s', 'p', 'i', 'u'):
                x = copyval(eng, st, x, n)
                if x is None:
                    return None
            m[p] = eng.cur_val(st, x) if not isinstance(x, SV) else x
        # resolve substitutions made while copying later leaves
        return SV({p: eng.cur_val(st, x) for p, x in m.items()})
    if v == UN:
        eng.viol(st, 'uninit-read', n, 'copies a value before it is set', key='ucopy')
        return None
    if v == NULL:
        eng.viol(st, 'null-use', n, 'takes a reference to a result that is absent (null) on this path', key='null')
        return None
    r = resolve_root(eng, st, v, n)
    if r is None or isinstance(r, tuple):
        return eng.cur_val(st, v)
    if not eng.check_alive(st, (r, ()), n, 'copied'):
        return None
    o = st.objs.get(r)
    if o is not None and o.own is not None and not o.dc:
        eng.stats['acquires'] += 1
        st.objs[r] = o.upd(own=o.own + 1, stale=False, origin=o.origin if o.own else 'line %s' % n.line)
    return eng.cur_val(st, v)


def die(eng, st, r, n, contents):
    """The object is destroyed; with `contents` its owned parts go with it."""
    o = st.objs[r]
    if contents:
        for loc in [l for l in st.store if l[0] == r]:
            v = st.store.get(loc)
            if v is None or v[0] not in ('p', 's'):
                continue
            cs = eng.cellspec(loc[1], o.esp)
            if cs == 'own' or type(cs) is tuple:
                if type(cs) is tuple and v[0] == 'p' and v[1][0] in st.objs:
                    a = st.objs[v[1][0]]
                    if a.esp is None:
                        st.objs[v[1][0]] = a.upd(esp=cs[1])
                release1(eng, st, v, n, quiet=True)
    for loc in [l for l in st.store if l[0] == r]:
        del st.store[loc]
    o = st.objs[r]
    st.objs[r] = o.upd(own=0, dead=(n.line if n is not None else 0) or 1)


def release1(eng, st, v, n, quiet=False, mode='class'):
    """Give up one reference through pointer v (non-null)."""
    v = eng.cur_val(st, v)
    if v == NULL or v[0] in ('d', 'f', 'str', 'i'):
        return True
    if v == UN:
        eng.viol(st, 'uninit-read', n, 'releases a value before it is set', key='urel')
        return False
    if v[0] == 's':
        s = st.syms.get(v[1])
        if s is None or s.dc:
            return True
        if quiet:
            if s.own:
                st.syms[v[1]] = s.upd(own=s.own - 1)
            return True
    r = resolve_root(eng, st, v, n)
    if r is None or isinstance(r, tuple):
        return True
    v = eng.cur_val(st, v)
    if v[0] == 'p' and v[1][1]:
        return True
    o = st.objs.get(r)
    if o is None or o.dc or o.own is None:
        return True
    eng.stats['releases'] += 1
    if o.dead:
        if not quiet:
            eng.viol(st, 'double-release', n, '%s obtained at %s is released again (first released at line %s)' % (o.rec or 'memory', o.origin, o.dead), key='dbl %s' % (o.origin,))
        return False
    if o.own <= 0:
        if not quiet:
            eng.viol(st, 'over-release', n, 'releases a reference to %s (%s) that it does not hold' % (o.rec or 'memory', o.origin or 'borrowed'), key='over %s' % (o.origin,))
        return False
    o = o.upd(own=o.own - 1)
    st.objs[r] = o
    if o.own == 0 and not o.b:
        if mode == 'type':
            # the collector may take it at the next type allocation
            if any(b == r for a, b in st.edges):
                st.objs[r] = o.upd(b=True)
            else:
                st.objs[r] = o.upd(stale=True)
        elif mode == 'consume':
            st.objs[r] = o.upd(b=True)
        else:
            die(eng, st, r, n, True)
    elif mode == 'consume' and o.own == 0:
        pass
    return True


def release(eng, st, v, n, nullable, mode='class'):
    """-> [st]"""
    v = eng.cur_val(st, v)
    if isinstance(v, SV):
        states = [st]
        for p in sorted(v.m, key=repr):
            cs = eng.cellspec(p)
            if cs == 'own' or type(cs) is tuple:
                nxt = []
                for s in states:
                    nxt.extend(release(eng, s, v.m[p], n, nullable, mode))
                states = nxt
        return states
    if v == NULL:
        if nullable:
            return [st]
        eng.viol(st, 'null-use', n, 'releases a result that is absent (null) on this path', key='null')
        return []
    if v[0] == 's' and nullable:
        s = st.syms.get(v[1])
        if s is not None and not s.dc:
            nul, non = eng.split_null(st, v, n)
            out = list(nul)
            for x, w in non:
                if release1(eng, x, w, n, mode=mode):
                    out.append(x)
            return out
    return [st] if release1(eng, st, v, n, mode=mode) else []


def stale_to_dead(eng, st, n):
    for r, o in list(st.objs.items()):
        if o.stale and not o.dc:
            if any(b == r for a, b in st.edges):
                st.objs[r] = o.upd(stale=False, b=True)
            else:
                die(eng, st, r, n, True)


def new_owned(eng, st, t, n, rec=None, kind='ext', own=1):
    if rec is None and t[0] == 'ptr' and t[1][0] == 'rec':
        rec = t[1][1]
    eng.stats['acquires'] += 1
    r = eng.newobj(st, kind, rec=rec, own=own, origin='line %s' % n.line)
    if rec:
        eng.set_tag(st, r, rec)
    return ('p', (r, ()))


def owned_struct(eng, st, rec, n, own=1, b=False):
    m = {}
    for p, t in eng.leaves(rec):
        cs = eng.cellspec(p)
        if cs == 'own' and t[0] == 'ptr':
            m[p] = new_owned(eng, st, t, n, own=own)
        elif type(cs) is tuple and t[0] == 'ptr':
            r = eng.newobj(st, 'ext', rec=None, own=own, origin='line %s' % n.line, esp=cs[1])
            m[p] = ('p', (r, ()))
        elif t[0] in ('ptr', 'int', 'enum'):
            m[p] = eng.newsym(st, t)
        else:
            m[p] = DC
    return SV(m)


def mkret(eng, st, n, mode):
    """Build return values for a mode. -> [(st, v)]"""
    t = eng.T.parse(n.ty)
    if mode is None or t[0] == 'void':
        return [(st, DC)]
    if t[0] == 'rec':
        if mode == 'own':
            return [(st, owned_struct(eng, st, t[1], n))]
        if mode == 'modarg':
            m = {}
            for p, lt in eng.leaves(t[1]):
                own = eng.cellspec(p) == 'own'
                m[p] = eng.newsym(st, lt, own=1 if own else 0, b=not own, neq=frozenset() if p[-1].endswith('module_path') else frozenset([0]))
            return [(st, SV(m))]
        m = {}
        for p, lt in eng.leaves(t[1]):
            m[p] = eng.newsym(st, lt) if lt[0] in ('ptr', 'int', 'enum') else DC
        return [(st, SV(m))]
    if t[0] == 'ptr':
        if mode == 'own':
            return [(st, new_owned(eng, st, t, n))]
        if mode == 'own?':
            a = st.copy()
            a.note(n.line, 'absent')
            return [(a, NULL), (st, new_owned(eng, st, t, n))]
        if mode == 'vecown?':
            a = st.copy()
            a.note(n.line, 'absent')
            return [(a, NULL), (st, ('p', (eng.newobj(st, 'ext', rec=None, own=1, origin='line %s' % n.line, esp='own'), ())))]
        if mode == 'b':
            v = eng.newsym(st, t, neq=frozenset([0]))
            return [(st, v)]
        if mode == 'b?':
            a = st.copy()
            a.note(n.line, 'absent')
            return [(a, NULL), (st, eng.newsym(st, t, neq=frozenset([0])))]
        if mode == 'b*':
            return [(st, eng.newsym(st, t))]
        if mode == 'dc':
            return [(st, DC)]
    if t[0] in ('int', 'enum'):
        return [(st, eng.newsym(st, t))]
    return [(st, DC)]


class C(object):
    """A declarative contract."""

    def __init__(self, ret=None, release=(), nullable=(), consume=(), copy=None, nonnull=(), typealloc=False, mode='class', diag=None, alive=True, out=(), pnull=()):
        self.out = out; self.pnull = pnull
        self.ret = ret; self.release = release; self.nullable = nullable; self.consume = consume; self.copy = copy
        self.nonnull = nonnull; self.typealloc = typealloc; self.mode = mode; self.diag = diag; self.alive = alive

    def __call__(self, eng, st, name, vs, n):
        # a released argument is used as well
        if self.alive:
            for i, v in enumerate(vs):
                if i in self.release:
                    continue
                if not use(eng, st, v, n, i in self.nonnull):
                    return []
        if self.typealloc:
            stale_to_dead(eng, st, n)
        states = [st]
        for i in self.release:
            if i < len(vs):
                nxt = []
                for s in states:
                    nxt.extend(release(eng, s, vs[i], n, i in self.nullable, self.mode))
                states = nxt
        for i in self.consume:
            if i < len(vs):
                nxt = []
                for s in states:
                    nxt.extend(release(eng, s, vs[i], n, True, 'consume'))
                states = nxt
        for i in self.out:
            if i < len(vs):
                nxt = []
                for s in states:
                    nxt.extend(havoc(eng, s, vs[i], n))
                states = nxt
        out = []
        for s in states:
            if self.copy is not None:
                v = copyval(eng, s, vs[self.copy], n)
                if v is not None:
                    out.append((s, v))
            else:
                out.extend(mkret(eng, s, n, self.ret))
        return out


def havoc(eng, st, v, n):
    """A scalar the callee may set through a pointer. -> [st]"""
    v = eng.cur_val(st, v)
    if v[0] != 'p':
        return [st]
    out = []
    for s, loc in eng.deref(st, v, n):
        for s1, loc1 in eng.norm_loc(s, loc):
            old = s1.store.get(loc1)
            t = eng.ltypes.get(loc1[0]) if not loc1[1] else None
            if t is not None and t[0] in ('int', 'enum'):
                s1.store[loc1] = eng.newsym(s1, t)
            elif t is not None and t[0] == 'ptr':
                s1.store[loc1] = DC
            elif old is not None and old[0] in ('i', 's', 'd', 'str', 'sz'):
                s1.store[loc1] = DC
            out.append(s1)
    return out


def use(eng, st, v, n, nonnull=False):
    """An argument is passed on: it must be alive."""
    v = eng.cur_val(st, v)
    if isinstance(v, SV):
        for p, x in v.m.items():
            cs = eng.cellspec(p)
            if cs is not None and not use(eng, st, x, n):
                return False
        return True
    if v[0] == 'p':
        r = v[1][0]
        o = st.objs.get(r)
        if o is not None and o.dead and not o.dc:
            eng.viol(st, 'use-after-release', n, '%s obtained at %s is passed on after it was released at line %s' % (o.rec or 'memory', o.origin, o.dead), key='uar %s' % (o.origin,))
            return False
    if v == NULL and nonnull:
        eng.viol(st, 'null-use', n, 'uses a result that is absent (null) on this path', key='null')
        return False
    if v == UN:
        eng.viol(st, 'uninit-read', n, 'passes on a value before it is set', key='upass')
        return False
    return True


# -- memory --------------------------------------------------------------------
def h_alloc(eng, st, name, vs, n):
    sz = vs[0]
    rec = None
    if sz[0] == 'sz':
        t = eng.T.parse(sz[1])
        if t[0] == 'rec':
            rec = t[1]
    eng.stats['acquires'] += 1
    r = eng.newobj(st, 'fresh', rec=None, own=1, origin='line %s' % n.line)
    return [(st, ('p', (r, ())))]


def h_realloc(eng, st, name, vs, n):
    v = eng.cur_val(st, vs[0])
    if v == NULL:
        return h_alloc(eng, st, name, vs[1:], n)
    if v[0] == 's':
        nul, non = eng.split_null(st, v, n)
        out = []
        for s in nul:
            out.extend(h_alloc(eng, s, name, vs[1:], n))
        for s, w in non:
            out.append((s, w))
        return out
    return [(st, v)]


def h_free(eng, st, name, vs, n):
    """FbleFree: raw memory goes, its contents must already have gone."""
    v = eng.cur_val(st, vs[0])
    if v == NULL:
        return [(st, DC)]
    if v == UN:
        eng.viol(st, 'uninit-read', n, 'frees a pointer before it is set', key='ufree')
        return []
    out = []
    if v[0] == 's':
        nul, non = eng.split_null(st, v, n)
        out = [(s, DC) for s in nul]
    else:
        non = [(st, v)]
    for s, w in non:
        r = resolve_root(eng, s, w, n)
        if r is None:
            out.append((s, DC)); continue
        if isinstance(r, tuple):
            out.append((s, DC)); continue
        o = s.objs[r]
        if o.dc or o.own is None:
            out.append((s, DC)); continue
        eng.stats['releases'] += 1
        if o.dead:
            eng.viol(s, 'double-release', n, '%s obtained at %s is freed again (first at line %s)' % (o.rec or 'memory', o.origin, o.dead), key='dbl %s' % (o.origin,))
            continue
        if o.own <= 0:
            eng.viol(s, 'over-release', n, 'frees %s (%s) that it does not hold' % (o.rec or 'memory', o.origin or 'borrowed'), key='over %s' % (o.origin,))
            continue
        # contents that came with an opaque object and were never looked at
        if o.kind == 'ext':
            check_contents(eng, s, r, o, n)
        rec = o.rec
        s.objs[r] = o.upd(own=o.own - 1)
        raw_die(eng, s, r, n)
        out.append((s, DC))
    return out


def static_rec(eng, n):
    """Record the freed pointer expression points to."""
    a = n.c[1]
    while a.k in ('ImplicitCastExpr', 'CStyleCastExpr') and a.op in ('BitCast', 'NoOp', 'LValueToRValue'):
        t = eng.T.parse(a.c[0].ty)
        a = a.c[0]
    t = eng.T.parse(a.ty)
    if t[0] == 'ptr' and t[1][0] == 'rec':
        return t[1][1]
    return None


def check_contents(eng, st, r, o, n):
    if o.esp is not None or (o.rec is None and o.size is not None):
        # array: element K, if there is one
        m = 7
        if o.size is not None:
            sv = st.store.get(o.size)
            if sv is not None:
                m = eng.kmask(st, sv)
            elif o.size[0] in st.objs or isinstance(o.size[0], tuple):
                m = 7
            else:
                return
        else:
            return
        if not (m & G):
            return
        if o.esp == 'own':
            if (r, ('[K]',)) not in st.store:
                eng.viol(st, 'leak', n, 'frees an array without releasing its elements', key='elems')
        elif o.esp == 'rec':
            t = eng.T.parse(n.c[1].c[0].ty if n.c[1].c else n.c[1].ty)
            if t[0] == 'ptr' and t[1][0] == 'rec':
                for p, lt in eng.leaves(t[1][1]):
                    cs = eng.cellspec(('[K]',) + p, 'rec')
                    if (cs == 'own' or type(cs) is tuple) and (r, ('[K]',) + p) not in st.store:
                        eng.viol(st, 'leak', n, 'frees an array without releasing %s of its elements' % p[-1].split('.')[-1], key='elems %s' % p[-1])
        return
    recs = set()
    rec = static_rec(eng, n) or o.rec
    if rec is None:
        return
    recs = real_recs(eng, st, r, rec)
    for rec in recs:
        for p, lt in eng.leaves(rec):
            if lt[0] != 'ptr':
                continue
            cs = eng.cellspec(p)
            if (cs == 'own' or type(cs) is tuple) and (r, p) not in st.store:
                eng.viol(st, 'leak', n, 'frees %s without releasing its %s' % (rec, p[-1].split('.')[-1] if not p[-1].endswith('.xs') else p[-2].split('.')[-1] if len(p) > 1 else 'xs'), key='contents %s' % (p[-1] if not p[-1].endswith('.xs') else repr(p[-2:]),))


def real_recs(eng, st, r, rec):
    """The record(s) the object can be, given its tag."""
    subs = [(s, c) for s, (cell, c) in TAGS.items() if cell == rec + '.tag']
    if subs:
        v = st.store.get((r, (rec + '.tag',)))
        if v is not None and v[0] == 'i':
            for s, c in subs:
                if eng.tu.enum_val.get(c) == v[1] and eng.T.record(s) is not None:
                    return [s]
        return [rec]
    return [rec]


def raw_die(eng, st, r, n):
    o = st.objs[r]
    for loc in [l for l in st.store if l[0] == r]:
        del st.store[loc]
    st.objs[r] = o.upd(own=0, dead=n.line or 1)


def h_extend(eng, st, name, vs, n):
    """FbleExtendVectorRaw(elem_size, &size, &xs)"""
    out = []
    v = eng.cur_val(st, vs[1])
    for s, loc in eng.deref(st, v, n):
        for s1, loc1 in eng.norm_loc(s, loc):
            for s2, sv in eng.load(s1, loc1, 'unsigned long', n):
                if sv[0] in ('i', 's'):
                    nv = eng.addv(s2, sv, ('i', 1))
                    s2.inc = s2.inc | {loc1}
                    if nv[0] == 's' and nv[1] in s2.syms:
                        pass
                else:
                    nv = DC
                for s3 in eng.store(s2, loc1, nv, n):
                    out.append((s3, DC))
    return out


# -- heap types and typed expressions -----------------------------------------------
def sym_struct_copy(eng, st, dst, v, n):
    """Store an owned copy of struct value v at dst."""
    c = copyval(eng, st, v, n)
    if c is None:
        return False
    for p, x in c.m.items():
        st.store[(dst[0], dst[1] + p)] = x
    return True


def h_newtype(eng, st, name, vs, n):
    # (heap, size, tag, loc)
    stale_to_dead(eng, st, n)
    if not use(eng, st, vs[3], n):
        return []
    r = eng.newobj(st, 'fresh', rec=sizerec(eng, vs[1]) or 'FbleType', own=1, origin='line %s' % n.line)
    eng.stats['acquires'] += 1
    st.store[(r, ('FbleType.tag',))] = vs[2]
    st.store[(r, ('FbleType.visiting',))] = ('i', 0)
    put_loc(eng, st, r, 'FbleType.loc', vs[3])
    return [(st, ('p', (r, ())))]


def sizerec(eng, v):
    if v[0] == 'sz':
        t = eng.T.parse(v[1])
        if t[0] == 'rec':
            return t[1]
    return None


def put_loc(eng, st, r, field, v):
    """The new object's own copy of a location (opaque, owned)."""
    v = eng.cur_val(st, v)
    for p, t in eng.leaves('FbleLoc'):
        if t[0] == 'ptr':
            q = eng.newobj(st, 'ext', rec='FbleString', own=1, origin='loc')
            st.store[(r, (field,) + p)] = ('p', (q, ()))
        else:
            st.store[(r, (field,) + p)] = eng.newsym(st, t)


def h_newinstr(eng, st, name, vs, n):
    # (size, tag)
    r = eng.newobj(st, 'fresh', rec=sizerec(eng, vs[0]) or 'FbleInstr', own=1, origin='line %s' % n.line)
    eng.stats['acquires'] += 1
    st.store[(r, ('FbleInstr.tag',))] = vs[1]
    st.store[(r, ('FbleInstr.debug_info',))] = NULL
    st.store[(r, ('FbleInstr.profile_ops',))] = NULL
    return [(st, ('p', (r, ())))]


def copy_nullable(eng, st, name, vs, n):
    v = eng.cur_val(st, vs[0])
    if v == NULL:
        return [(st, NULL)]
    out = []
    if v[0] == 's':
        s = st.syms.get(v[1])
        if s is not None and not s.dc:
            nul, non = eng.split_null(st, v, n)
            out = [(x, NULL) for x in nul]
            for x, w in non:
                c = copyval(eng, x, w, n)
                if c is not None:
                    out.append((x, c))
            return out
    c = copyval(eng, st, v, n)
    return [(st, c)] if c is not None else []


copy_nullable.ret = 'own+null'
copy_nullable.modes = {0: '+nullable'}


def h_newtc(eng, st, name, vs, n):
    # (size, tag, loc)
    if not use(eng, st, vs[2], n):
        return []
    r = eng.newobj(st, 'fresh', rec=sizerec(eng, vs[0]) or 'FbleTc', own=1, origin='line %s' % n.line)
    eng.stats['acquires'] += 1
    st.store[(r, ('FbleTc.tag',))] = vs[1]
    st.store[(r, ('FbleTc.refcount',))] = ('i', 1)
    st.store[(r, ('FbleTc.magic',))] = DC
    put_loc(eng, st, r, 'FbleTc.loc', vs[2])
    return [(st, ('p', (r, ())))]


def h_addref(eng, st, name, vs, n):
    a = resolve_root(eng, st, vs[1], n) if eng.cur_val(st, vs[1]) != NULL else None
    vb = eng.cur_val(st, vs[2])
    if vb == NULL or eng.cur_val(st, vs[1]) == NULL:
        eng.viol(st, 'null-use', n, 'adds a reference to or from a type that is absent (null) on this path', key='null')
        return []
    b = resolve_root(eng, st, vb, n)
    for r in (a, b):
        if r is not None and not isinstance(r, tuple) and not eng.check_alive(st, (r, ()), n):
            return []
    if a is not None and b is not None:
        st.edges = st.edges | {(a, b)}
        o = st.objs.get(b)
        if o is not None and o.stale:
            st.objs[b] = o.upd(stale=False, b=True)
    return [(st, DC)]


def h_retain_type(eng, st, name, vs, n):
    v = copyval(eng, st, vs[1], n)
    return [] if v is None else [(st, v)]


def h_report(eng, st, name, vs, n):
    if not use_all(eng, st, vs, n):
        return []
    st.flags['rep'] = 1
    return [(st, DC)]


def use_all(eng, st, vs, n):
    for v in vs:
        if not use(eng, st, v, n):
            return False
    return True


HANDLERS = {
    'FbleAllocRaw': h_alloc, 'FbleReAllocRaw': h_realloc, 'FbleFree': h_free, 'FbleExtendVectorRaw': h_extend,
    'FbldAllocRaw': h_alloc, 'FbldReAllocRaw': h_realloc, 'FbldFree': h_free, 'FbldExtendVectorRaw': h_extend,
    # strings, locations, names
    'FbleNewString': C('own'), 'FbleCopyString': C(copy=0), 'FbleFreeString': C(release=(0,)),
    'FbleNewLoc': C('own'), 'FbleCopyLoc': C(copy=0), 'FbleFreeLoc': C(release=(0,)),
    'FbleCopyName': C(copy=0), 'FbleFreeName': C(release=(0,)), 'FbleNamesEqual': C('int'), 'FblePrintName': C(),
    'FbleReportError': h_report, 'FbleReportWarning': C(),
    # module paths
    'FbleNewModulePath': C('own'), 'FbleCopyModulePath': C(copy=0), 'FbleFreeModulePath': C(release=(0,)),
    'FbleModulePathName': C('own'), 'FblePrintModulePath': C(), 'FbleModulePathsEqual': C('int'), 'FbleModuleBelongsToPackage': C('int'),
    # kinds
    'FbleNewBasicKind': C('own'), 'FbleCopyKind': C(copy=0), 'FbleFreeKind': C(release=(0,), nullable=(0,)),
    'FbleGetKind': C('own'), 'FbleGetKindLevel': C('int'), 'FbleKindsEqual': C('int'), 'FblePrintKind': C(), 'LevelAdjustedKind': C('own'),
    # types
    'FbleNewTypeRaw': h_newtype, 'FbleRetainType': h_retain_type,
    'FbleReleaseType': C(release=(1,), nullable=(1,), mode='type'), 'FbleTypeAddRef': h_addref,
    'FbleNewVarType': C('own', typealloc=True), 'FbleAssignVarType': C(), 'FbleNewPolyType': C('own', typealloc=True),
    'FbleNewPolyApplyType': C('own', typealloc=True), 'FbleTypeIsVacuous': C('int', typealloc=True),
    'FbleNormalType': C('own', typealloc=True), 'FbleValueOfType': C('own?'), 'FbleListElementType': C('own?', typealloc=True),
    'FbleTypesEqual': C('int', typealloc=True), 'FbleTypeInfer': C('int', typealloc=True), 'FblePrintType': C(),
    'Normal': C('own?', typealloc=True), 'Subst': C('own', typealloc=True), 'TypesEqual': C('int', typealloc=True),
    'HasParam': C('int'), 'HasParam_': C('int'), 'FbleNewTypeHeap': C('own'), 'FbleFreeTypeHeap': C(release=(0,)),
    # typed expressions
    'FbleNewTcRaw': h_newtc, 'FbleCopyTc': C(copy=0), 'FbleFreeTc': C(release=(0,), nullable=(0,)),
    'FreeTcBinding': C(release=(0,), nullable=(0,)),
    # expressions
    'FbleFreeExpr': C(release=(0,), nullable=(0,)),
}
