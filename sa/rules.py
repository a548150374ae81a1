"""The type rules: what has to be known of everything that is accepted.

For each construct the facts its typing rule demands are listed.  Every way
through the checker that accepts the construct must have established them
(facts.py), however the code that does so is written.
"""
import re
import fe, terms, facts
from terms import Unsupported


class Each(object):
    """In every round of some loop over all of 0..n-1."""

    def __init__(self, n, *what):
        self.n = n; self.what = what


class Part(Each):
    """In every round of some loop over 0..n-1 that may end early."""


class Any(object):
    def __init__(self, *alts):
        self.alts = alts


class All(object):
    def __init__(self, *what):
        self.what = what


class Never(object):
    """No way of this kind may accept."""


def show(x):
    if isinstance(x, Each):
        return 'for each of %s: %s' % (x.n, ' and '.join(show(y) for y in x.what))
    if isinstance(x, Any):
        return ' or '.join(show(y) for y in x.alts)
    if isinstance(x, All):
        return '(%s)' % ' and '.join(show(y) for y in x.what)
    if isinstance(x, Every):
        return 'wherever %s: %s' % (x.pat, ' and '.join([show(y) for y in x.what] + ['%s is %s' % kv for kv in x.form.items()]))
    if isinstance(x, Late):
        return '%s only after %s' % (x.fact, x.call)
    if isinstance(x, Once):
        return 'exactly one call ' + x.pat
    if isinstance(x, Order):
        return '%s before %s' % (x.first, x.then)
    if isinstance(x, Ends):
        return 'a loop that ends when ' + ' and '.join(x.what)
    if isinstance(x, Stops):
        return 'a loop that ends only when ' + ' or '.join(x.what)
    return x


class Ends(object):
    """Some loop ends just when."""

    def __init__(self, *what):
        self.what = what


class Stops(object):
    """Some loop ends only when one of."""

    def __init__(self, *what):
        self.what = what


class Order(object):
    """All calls of the one kind come before all calls of the other."""

    def __init__(self, first, then):
        self.first = first; self.then = then


class Late(object):
    """Rounds with this fact come after all calls of the kind."""

    def __init__(self, fact, call):
        self.fact = fact; self.call = call


class Once(object):
    """There is exactly one such call."""

    def __init__(self, pat):
        self.pat = pat


class Every(object):
    """Wherever there is a fact of some form, its parts ($1, $2..) have to
    meet a demand in the same place, or have the form given."""

    def __init__(self, pat, *what, **form):
        self.pat = pat; self.what = what; self.form = form


class Judge(object):
    """Whether a way has established what is demanded."""

    def __init__(self, w, enums, domain=None):
        self.w = w
        self.enum = {}
        self.group = {}
        for ty, vals in enums.items():
            for name, v in vals:
                self.enum[name] = v
                self.group[name] = [x for _, x in vals]
        self.names = set()
        self.domain = {}
        self.collect(w)
        if domain:
            every = set()
            self.every(w, every)
            for m, pat in domain.items():
                r = re.compile(pat)
                self.domain[m] = sorted({next((g for g in x.groups() if g), x.group(0)) if x.groups() else x.group(0) for f in every for x in r.finditer(f)})
        self.value = w.text(w.v, w.scope) if w.v is not None else 'void'

    def collect(self, v):
        for R in v.reps:
            for x in R.init:
                self.names |= {x, x.split('.')[0]}
            for s in R.subs:
                self.collect(s)

    def every(self, v, out):
        out |= v.facts
        for R in v.reps:
            for s in R.subs:
                self.every(s, out)

    # -- literals ---------------------------------------------------------------
    def literal(self, lit, facts_):
        m = re.match(r'(.*) (==|!=|:=) ([A-Z]\w*)$', lit)
        if m and m.group(3) in self.enum:
            x, op, k = m.group(1), m.group(2), self.enum[m.group(3)]
            if op == ':=':
                return self.has('%s := %d' % (x, k), facts_)
            pos = '%s == %d' % (x, k)
            neg = '%s != %d' % (x, k)
            if op == '==':
                return self.has(pos, facts_) or k == 0 and self.has('!' + x, facts_) or all(self.has('%s != %d' % (x, o), facts_) for o in self.group[m.group(3)] if o != k)
            return self.has(neg, facts_) or k == 0 and self.has(x, facts_) or k != 0 and self.has('!' + x, facts_) or any(self.has('%s == %d' % (x, o), facts_) for o in self.group[m.group(3)] if o != k)
        return self.has(lit, facts_)

    def absurd(self, whens):
        """Every value a tag may have is ruled out."""
        for when in whens:
            for w in when:
                m = re.match(r'(.*) == ([A-Z]\w*)$', w)
                if m and m.group(2) in self.enum and self.literal('%s != %s' % m.groups(), self.w.facts) and self.literal(w, self.w.facts):
                    return True
        return False

    def possible(self, when):
        for w in when:
            m = re.match(r'(.*) == ([A-Z]\w*)$', w)
            m = m if m and m.group(2) in self.enum else None
            if m and self.literal('%s != %s' % m.groups(), self.w.facts) and not self.literal(w, self.w.facts):
                return False
            if not m and self.has(facts.negated(w), self.w.facts):
                return False
        return True

    def has(self, lit, facts_):
        if lit in facts_:
            return True
        if '~' in lit:
            r = re.compile('.*'.join(re.escape(x) for x in lit.split('~')) + '$', re.S)
            return any(r.match(f) for f in facts_)
        return False

    def holds(self, x, view, bind):
        if isinstance(x, All):
            return all(self.holds(y, view, bind) for y in x.what)
        if isinstance(x, Any):
            return any(self.holds(y, view, bind) for y in x.alts)
        if isinstance(x, Each):
            n = self.put(x.n, bind)
            way = n.split(' ')[0] if n.startswith(('up ', 'down ')) else None
            n = n[len(way) + 1:] if way else n
            for R in view.reps:
                if (R.whole or isinstance(x, Part)) and (way is None or R.dir == way) and (n == '~' or R.n == n) and all(all(self.holds(y, s, bind) for y in x.what) for s in R.subs):
                    if R.subs:
                        return True
            return False
        if isinstance(x, Ends):
            return any(R.stops and all(self.literal(self.put(y, bind), s) for s in R.stops for y in x.what) for R in view.reps)
        if isinstance(x, Stops):
            return any(R.stops and all(any(self.literal(self.put(y, bind), s) for y in x.what) for s in R.stops) for R in view.reps)
        if isinstance(x, Order):
            seq = list(self.sequence(view))
            a = [i for i, t in enumerate(seq) if re.match(x.first, t)]
            b = [i for i, t in enumerate(seq) if re.match(x.then, t)]
            return not a or not b or max(a) < min(b)
        if isinstance(x, Late):
            seen = False
            for e in reversed(view.seq):
                if isinstance(e, str):
                    seen = seen or bool(re.match(x.call, e))
                elif any(self.literal(x.fact, v.facts) for s in e.subs for v in self.views(s)):
                    if seen:
                        return False
                else:
                    seen = seen or any(re.match(x.call, t) for s in e.subs for t in self.sequence(s))
            return True
        if isinstance(x, Once):
            return sum(1 for t in self.sequence(view) if re.match(x.pat, t)) == 1
        if isinstance(x, Every):
            return all(self.holds_every(x, v, f, bind) for v in self.views(view) for f in sorted(v.facts))
        lit = self.put(x, bind)
        if lit.startswith('no '):
            return not any(self.literal(lit[3:], v.facts) for v in self.views(view))
        if lit.startswith('never '):
            return not self.literal(lit[6:], view.facts)
        if lit.startswith('somewhere '):
            return any(self.literal(lit[10:], v.facts) for v in self.views(view))
        if lit.startswith('return '):
            return self.has(lit[7:], {self.value})
        if lit.startswith('readonly '):
            p = lit[9:]
            return not any(f.startswith((p + '.', p + ' :=', 'node[' + p)) and ' := ' in f for f in view.facts)
        m = re.match(r'init\((.*)\) = (.*)$', lit)
        if m:
            return any(R.init.get(m.group(1)) == m.group(2) for R in view.reps)
        return self.literal(lit, view.facts)

    def views(self, v):
        yield v
        for R in v.reps:
            for s in R.subs:
                for y in self.views(s):
                    yield y

    def sequence(self, view):
        for e in view.seq:
            if isinstance(e, str):
                yield e
            else:
                for s in e.subs:
                    for y in self.sequence(s):
                        yield y

    def holds_every(self, x, view, f, bind):
        m = re.match(x.pat + '$', f)
        if not m:
            return True
        b = dict(bind, **{'$%d' % (i + 1): g for i, g in enumerate(m.groups())})
        for k, form in x.form.items():
            if not re.match(form + '$', m.group(k)):
                return False
        return all(self.holds(y, view, b) for y in x.what)

    def put(self, s, bind):
        for k, v in bind.items():
            s = s.replace(k, v)
        return s

    def metas(self, x):
        if isinstance(x, str):
            return set(re.findall(r'\$\w+', x))
        out = set()
        if isinstance(x, (Every, Order, Once, Late)):
            return out
        if isinstance(x, Each):
            out |= self.metas(x.n)
        for y in getattr(x, 'what', getattr(x, 'alts', ())):
            out |= self.metas(y)
        return out

    def judge(self, x, bind=None):
        """None, or what is not established."""
        bind = bind or {}
        if isinstance(x, Any):
            best = None
            for y in x.alts:
                r = self.judge(y, bind)
                if r is None:
                    return None
            return self.put(show(x), bind)
        ms = sorted(self.metas(x) - set(bind))
        if ms:
            # all texts the metavariables may stand for; the one that gets furthest explains
            best = None
            dom = self.domain.get(ms[0])
            if dom is None:
                dom = sorted(self.names)
            for nm in dom or ['?']:
                r = self.judge(x, dict(bind, **{ms[0]: nm}))
                if r is None:
                    return None
                best = best if best is not None and len(best) <= len(r) else r
            return best
        if isinstance(x, All):
            for y in x.what:
                r = self.judge(y, bind)
                if r is not None:
                    return r
            return None
        return None if self.holds(x, self.w, bind) else self.put(show(x), bind)


# -- the rules of expressions -----------------------------------------------------------
TC = 'TypeCheckExpr(%s).type'
OK = lambda e: TC % e
NORM = lambda e: 'FbleNormalType(%s)' % (TC % e)
TY = lambda e: 'TypeCheckType(%s)' % e


def equal(f, a, b, neg=False):
    return '%s%s(%s, %s)' % ('!' if neg else '', f, a, b)


def names(a, b):
    return equal('FbleNamesEqual', a, b)


def nodup(xs):
    return Each(xs + '.size', Any(Each('i', '!FbleNamesEqual(%s.xs[i].name, %s.xs[j].name)' % (xs, xs))))


def cursor(n, xs, fields, *more):
    """A cursor over xs that moves on just where a field has its name."""
    x, f = '%s.xs[$a]' % xs, '%s.xs[i]' % fields
    return All('init($a) = 0',
               Each(n, Any('next($a) = $a', All('next($a) = $a+1', '$a < %s.size' % xs, names(x + '.name', f + '.name'), *more))),
               "$a' >= %s.size" % xs)


def expressions():
    B = 'expr.bindings.xs[i]'
    A = 'expr.args.xs[i]'
    R = {}
    typ = [All('TypeCheckType(expr)')]
    for t in ('FBLE_DATA_TYPE_EXPR', 'FBLE_FUNC_TYPE_EXPR', 'FBLE_PACKAGE_TYPE_EXPR', 'FBLE_TYPEOF_EXPR'):
        R[t] = typ
    R['FBLE_VAR_EXPR'] = [All('GetVar({~.normal=expr.var}, 0)')]
    R['FBLE_MODULE_PATH_EXPR'] = [All('GetVar({~.module=expr.path~}, 0)', 'GetVar({~.module=expr.path~}, 0).type')]
    R['FBLE_LET_EXPR'] = [
        Each('expr.bindings.size', Any('!%s.type' % B, TY(B + '.type'))),
        Each('expr.bindings.size', Any('!%s.type' % B, 'CheckNameSpace(%s.name, %s)' % (B, TY(B + '.type')))),
        Each('expr.bindings.size', Any('%s.type' % B, 'CheckNameSpace(%s.name, FbleNewVarType(~))' % B, '!FbleNewVarType(~)')),
        nodup('expr.bindings'),
        Each('expr.bindings.size', OK(B + '.expr')),
        Each('expr.bindings.size', Any('!%s.type' % B, equal('FbleTypesEqual', TY(B + '.type'), TC % (B + '.expr')))),
        Each('expr.bindings.size', Any('%s.type' % B, equal('FbleKindsEqual', B + '.kind', 'FbleGetKind(%s)' % (TC % (B + '.expr'))))),
        Each('expr.bindings.size', Any('!FbleTypeIsVacuous(~)', '!alt{TypeCheckExpr(~')),
        OK('expr.body'),
    ]
    R['FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR'] = [
        Each('expr.args.size', OK(A + '.expr')),
        Each('expr.args.size', 'CheckNameSpace(%s.name, %s)' % (A, TC % (A + '.expr'))),
        nodup('expr.args'),
    ]
    S = NORM('expr.src')
    R['FBLE_STRUCT_COPY_EXPR'] = [
        OK('expr.src'), S + '.tag == FBLE_DATA_TYPE', S + '.datatype == FBLE_STRUCT_DATATYPE',
        Each('expr.args.size', OK(A + '.expr')),
        cursor(S + '.fields.size', 'expr.args', S + '.fields', equal('FbleTypesEqual', S + '.fields.xs[i].type', TC % 'expr.args.xs[$a].expr')),
    ]
    U = 'DepolyType(TypeCheckType(expr.type), ~)'
    R['FBLE_UNION_VALUE_EXPR'] = [
        TY('expr.type'), U + '.tag == FBLE_DATA_TYPE', U + '.datatype == FBLE_UNION_DATATYPE',
        names(U + '.fields.xs[~].name', 'expr.field'), OK('expr.arg'),
        'TypeInferArgs(~, {.size=1, .xs={=%s.fields.xs[~].type}}, {.size=1, .xs={=TypeCheckExpr(expr.arg)}}, {~.type=TypeCheckType(expr.type)}).type' % U,
    ]
    C = NORM('expr.condition')
    CH = 'expr.choices.xs[$a]'
    R['FBLE_UNION_SELECT_EXPR'] = [
        OK('expr.condition'), C + '.tag == FBLE_DATA_TYPE', C + '.datatype == FBLE_UNION_DATATYPE',
        Any('!expr.default_', OK('expr.default_')),
        cursor(C + '.fields.size', 'expr.choices', C + '.fields', OK(CH + '.expr')),
        # a field without a branch needs a default
        Any('expr.default_', Each(C + '.fields.size', 'next($a) = $a+1')),
        # all branches have the type of the result
        Each(C + '.fields.size', Any('next($a) = $a', equal('FbleTypesEqual', '$r', TC % (CH + '.expr')),
                                     All('!$r', 'next($r) = ' + TC % (CH + '.expr')))),
        Each(C + '.fields.size', Any('next($r) = $r', '!$r')),
        Any('!expr.default_', 'init($r) = ' + TC % 'expr.default_'),
    ]
    R['FBLE_FUNC_VALUE_EXPR'] = [TY('expr.arg.type'), 'TypeCheckExpr(~expr.body).type']
    R['FBLE_POLY_VALUE_EXPR'] = [
        'FbleGetKindLevel(expr.arg.kind) == 1', 'expr.arg.name.space == FBLE_TYPE_NAME_SPACE', OK('expr.body'),
    ]
    R['FBLE_POLY_APPLY_EXPR'] = ['return PolyApply(TypeCheckExpr(expr.poly), TypeCheckExprForType(expr.arg)~)']
    F = 'DepolyType(%s, ~)' % (TC % 'expr.func')
    E = 'FbleListElementType(%s.arg)' % F
    R['FBLE_LIST_EXPR'] = [
        OK('expr.func'), F + '.tag == FBLE_FUNC_TYPE', E,
        Each('expr.args.size', OK(A)),
        'TypeInferArgs(~, {.size=expr.args.size, .xs=[%s]}, {.size=expr.args.size, .xs=[TypeCheckExpr(expr.args.xs[*])]}, TypeCheckExpr(expr.func)).type' % E,
    ]
    F = NORM('expr.func')
    E = 'FbleListElementType(%s.arg)' % F
    D = 'FbleNormalType(%s)' % E
    R['FBLE_LITERAL_EXPR'] = [
        OK('expr.func'), F + '.tag == FBLE_FUNC_TYPE', E, D + '.tag == FBLE_DATA_TYPE', D + '.datatype == FBLE_UNION_DATATYPE',
        Each('~', "$m'", equal('FbleTypesEqual', 'FbleNewTypeRaw(~)', D + '.fields.xs[~].type'),
             Each(D + '.fields.size', Any('next($m) = $m',
                                          All('!strncmp(~, ~%s.fields.xs[j].name.name.str~, strlen(~%s.fields.xs[j].name.name.str~))' % (D, D),
                                              '$m < strlen(~%s.fields.xs[j].name.name.str~)' % D,
                                              'next($m) = strlen(~%s.fields.xs[j].name.name.str~)' % D)))),
        Ends('!~'),
    ]
    P = 'FbleNormalType(TypeCheckType(expr.package))'
    R['FBLE_ABSTRACT_CAST_EXPR'] = [
        TY('expr.package'), P + '.tag == FBLE_PACKAGE_TYPE', TY('expr.target'), OK('expr.value'),
        'FbleModuleBelongsToPackage(scope.module, %s.path)' % P,
        equal('FbleTypesEqual', TY('expr.target'), TC % 'expr.value'),
        'FbleTypesEqual sees %s.opaque = 0' % P,
    ]
    V = NORM('expr.value')
    R['FBLE_ABSTRACT_ACCESS_EXPR'] = [
        OK('expr.value'), V + '.tag == FBLE_ABSTRACT_TYPE', 'FbleModuleBelongsToPackage(scope.module, %s.package.path)' % V,
    ]
    O = NORM('expr.object')
    R['FBLE_DATA_ACCESS_EXPR'] = [
        OK('expr.object'), O + '.tag == FBLE_DATA_TYPE', names('expr.field', O + '.fields.xs[~].name'),
    ]
    M = NORM('expr.misc')
    T = 'FbleNormalType(%s.type)' % M
    S = 'DepolyType(%s.type, ~)' % M
    R['FBLE_MISC_APPLY_EXPR'] = [
        OK('expr.misc'), Each('expr.args.size', OK(A)),
        Any(All('!expr.bind', M + '.tag == FBLE_TYPE_TYPE', T + '.tag == FBLE_PACKAGE_TYPE', 'expr.args.size == 1',
                'FbleModuleBelongsToPackage(scope.module, %s.path)' % T),
            All('!expr.bind', M + '.tag == FBLE_TYPE_TYPE', S + '.tag == FBLE_DATA_TYPE', S + '.datatype == FBLE_STRUCT_DATATYPE',
                'TypeInferArgs(~, {.size=%s.fields.size, .xs=[%s.fields.xs[*].type]}, {.size=expr.args.size, .xs=[TypeCheckExpr(expr.args.xs[*])]}, {~.type=%s.type}).type' % (S, S, M)),
            All(Each('expr.args.size', 'DepolyType($r.type, ~).tag == FBLE_FUNC_TYPE',
                     'TypeInferArgs(~, {.size=1, .xs=~DepolyType($r.type, ~).arg~}, {.size=1, .xs=~TypeCheckExpr(expr.args.xs[i])~}, {.tc=$r.tc, .type=$r.type}).type',
                     'next($r.type) = ~(TypeInferArgs(~).type).rtype'),
                'init($r.type) = ' + TC % 'expr.misc')),
    ]
    return R


# -- the rules of functions ---------------------------------------------------------------
class Case(object):
    """What is demanded of the ways for which nothing speaks against `when`."""

    def __init__(self, name, when, *need):
        self.name = name; self.when = when; self.need = need


class Fn(object):
    def __init__(self, file, name, params, cases, ways='accept', domain=None, opaque=(), only=None, pure=(), watch=None, stirs=None):
        self.file = file; self.name = name; self.params = params
        self.cases = cases
        self.ways = ways                # those that accept, or all
        self.domain = domain or {}      # metavariable -> pattern of the texts it may stand for
        self.opaque = set(opaque)
        self.only = None if only is None else set(only)
        self.pure = set(pure); self.watch = watch; self.stirs = stirs or {}


def types_equal():
    A, B = '$A', 'FbleNormalType(b)'

    def te(x, y):
        return Any('TypesEqual(vars, %s, %s, {.a=%s, .b=%s, .next=eq~})' % (x, y, A, B), 'TypesEqual(vars, %s, %s, eq)' % (x, y))

    def both(tag, *more):
        return All('%s.tag == %s' % (A, tag), Any('%s.tag == %s' % (B, tag), '%s.tag == %s.tag' % (A, B)), *more)
    return Any(
        # a variable to infer
        All('FbleNormalType(a) == vars.xs[$k].var', '!vars.xs[$k].value', 'vars.xs[$k].value := b'),
        # assumed to be
        All('%s == $n.a' % A, '%s == $n.b' % B),
        # an abstract type seen from inside of its package
        All('%s.tag == FBLE_ABSTRACT_TYPE' % A, '!%s.package.opaque' % A, te(A + '.type', B)),
        All('%s.tag == FBLE_ABSTRACT_TYPE' % B, '!%s.package.opaque' % B, te(A, B + '.type')),
        both('FBLE_DATA_TYPE', '%s.datatype == %s.datatype' % (A, B), '%s.fields.size == %s.fields.size' % (A, B),
             Each(A + '.fields.size', 'FbleNamesEqual(%s.fields.xs[i].name, %s.fields.xs[i].name)' % (A, B)),
             Each(A + '.fields.size', te(A + '.fields.xs[i].type', B + '.fields.xs[i].type'))),
        both('FBLE_FUNC_TYPE', te(A + '.arg', B + '.arg'), te(A + '.rtype', B + '.rtype')),
        both('FBLE_POLY_TYPE', 'FbleKindsEqual(FbleGetKind(%s.arg), FbleGetKind(%s.arg))' % (A, B),
             'TypesEqual(vars, %s.body, %s.body, {.a=%s.arg, .b=%s.arg~})' % (A, B, A, B)),
        both('FBLE_POLY_APPLY_TYPE', te(A + '.poly', B + '.poly'), te(A + '.arg', B + '.arg')),
        both('FBLE_PACKAGE_TYPE', 'FbleModulePathsEqual(%s.path, %s.path)' % (A, B)),
        both('FBLE_ABSTRACT_TYPE', te(A + '.package', B + '.package'), te(A + '.type', B + '.type')),
        both('FBLE_VAR_TYPE', '%s == %s' % (A, B)),
        both('FBLE_TYPE_TYPE', te(A + '.type', B + '.type')))


def kinds(x, base, **more):
    d = {'FBLE_DATA_TYPE': base, 'FBLE_FUNC_TYPE': base}
    d.update(more)
    return d


def functions():
    T = 'lib/typecheck.c'
    Y = 'lib/type.c'
    F = 'type.fields.xs[i]'
    N = 'FbleNormalType(type)'
    N1 = 'FbleNormalType(%s.fields.xs[1].type)' % N
    N0 = 'FbleNormalType(%s.fields.xs.type)' % N
    struct = lambda x, n: All(x + '.tag == FBLE_DATA_TYPE', x + '.datatype == FBLE_STRUCT_DATATYPE', x + '.fields.size == %d' % n)
    P = 'FbleNormalType(FbleValueOfType(poly.type))'
    M = 'program.modules.xs[i]'
    out = [
        Fn(T, 'TypeCheckExpr', ['th', 'scope', 'expr'], [Case('an expression', [], 'return TypeCheckExprWithCleaner(expr, NewCleaner()~)')]),
        Fn(T, 'TypeCheckType', ['th', 'scope', 'type'], [Case('a type', [], 'return TypeCheckTypeWithCleaner(type, NewCleaner()~)')]),
        Fn(T, 'TypeCheckExprForType', ['th', 'scope', 'expr'], [Case('an expression', [], 'return TypeCheckExpr({=out:InitScope(0, {.size=0~}, scope.module~)}, expr).type')]),
        Fn(T, 'TypeCheckTypeWithCleaner', ['th', 'scope', 'type', 'cleaner'], [
            Case('FBLE_TYPEOF_EXPR', ['type.tag == FBLE_TYPEOF_EXPR'], 'return TypeCheckExprForType(type.expr)'),
            Case('FBLE_DATA_TYPE_EXPR', ['type.tag == FBLE_DATA_TYPE_EXPR'],
                 Each('type.fields.size', TY(F + '.type')),
                 Each('type.fields.size', 'CheckNameSpace(%s.name, %s)' % (F, TY(F + '.type'))),
                 nodup('type.fields'),
                 'return $t', '$t.datatype := type.datatype',
                 Each('type.fields.size', '~.name := %s.name' % F, '~.type := ' + TY(F + '.type'))),
            Case('FBLE_FUNC_TYPE_EXPR', ['type.tag == FBLE_FUNC_TYPE_EXPR'], TY('type.arg'), TY('type.rtype'),
                 'return $t', '$t.arg := ' + TY('type.arg'), '$t.rtype := ' + TY('type.rtype')),
            Case('FBLE_PACKAGE_TYPE_EXPR', ['type.tag == FBLE_PACKAGE_TYPE_EXPR'], 'return $t', '$t.path := type.path', '$t.opaque := 1'),
        ] + [Case(t, ['type.tag == ' + t], 'TypeCheckExprForType(type)', 'return FbleValueOfType(TypeCheckExprForType(type))',
                  'FbleValueOfType(TypeCheckExprForType(type))')
             for t in ('FBLE_VAR_EXPR', 'FBLE_LET_EXPR', 'FBLE_DATA_ACCESS_EXPR', 'FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR', 'FBLE_UNION_VALUE_EXPR',
                       'FBLE_UNION_SELECT_EXPR', 'FBLE_FUNC_VALUE_EXPR', 'FBLE_POLY_VALUE_EXPR', 'FBLE_POLY_APPLY_EXPR', 'FBLE_LIST_EXPR', 'FBLE_LITERAL_EXPR',
                       'FBLE_MODULE_PATH_EXPR', 'FBLE_ABSTRACT_CAST_EXPR', 'FBLE_ABSTRACT_ACCESS_EXPR', 'FBLE_MISC_APPLY_EXPR', 'FBLE_STRUCT_COPY_EXPR')],
           domain={'$t': r'FbleNewTypeRaw\([^()]*\)'}),
        Fn(T, 'CheckNameSpace', ['name', 'type'], [
            Case('a name of a value', ['name.space == FBLE_NORMAL_NAME_SPACE'], 'FbleGetKindLevel(FbleGetKind(type)) == 0'),
            Case('a name of a type', ['name.space == FBLE_TYPE_NAME_SPACE'], 'FbleGetKindLevel(FbleGetKind(type)) == 1')]),
        Fn(T, 'PolyApply', ['th', 'poly', 'arg_type', 'expr_loc', 'arg_loc'], [
            Case('an application', [], 'poly.type', 'arg_type',
                 Any(All('FbleGetKind(poly.type).tag == FBLE_POLY_KIND',
                         'FbleKindsEqual(FbleGetKind(poly.type).arg, FbleGetKind(arg_type))',
                         'return {~.type=FbleNewPolyApplyType(expr_loc, poly.type, FbleValueOfType(arg_type))}', 'return {~.tc=poly.tc~}'),
                     All('FbleGetKind(poly.type).tag != FBLE_POLY_KIND', 'FbleValueOfType(poly.type)', P + '.tag == FBLE_PACKAGE_TYPE', 'FbleValueOfType(arg_type)',
                         '$t.package := ' + P, '$t.type := FbleValueOfType(arg_type)')))],
           domain={'$t': r'FbleNewTypeRaw\([^()]*\)'}),
        Fn(T, 'TypeInferArgs', ['th', 'vars', 'expected', 'actual', 'poly'], [
            Case('arguments', [], 'poly.type', 'expected.size == actual.size',
                 Each('expected.size', 'FbleTypeInfer(vars, expected.xs[i], actual.xs[i].type)'),
                 Any('return $r\'', All('return {~.type=$r.type\'}', 'return {~.tc=$r.tc\'~}')),
                 Any(All('init($r) = {.tc=poly.tc, .type=poly.type}',
                         Each('vars.size', 'vars.xs[i].value', '$t.type := vars.xs[i].value',
                              'next($r) = PolyApply($r, $t~)', 'PolyApply($r, $t~).type')),
                     All('init($r.type) = poly.type', 'init($r.tc) = poly.tc',
                         Each('vars.size', 'vars.xs[i].value', '$t.type := vars.xs[i].value',
                              'next($r.type) = PolyApply(~$t~).type', 'PolyApply(~$r.type~, $t~).type'))))],
           domain={'$t': r'FbleNewTypeRaw\([^()]*\)'}),
        Fn(T, 'TypeCheckModule', ['th', 'module', 'deps'], [
            Case('a module', [],
                 Any('!module.type', 'TypeCheckType(~, module.type)'),
                 Any('!module.value', 'TypeCheckExpr(~, module.value).type'),
                 Any('module.type', 'module.value'),
                 Any('!module.type', '!module.value', 'FbleTypesEqual(TypeCheckType(~, module.type), TypeCheckExpr(~, module.value).type)'),
                 Any('!module.value', 'return TypeCheckExpr(~, module.value)', 'return {~.type=TypeCheckExpr(~, module.value).type}'),
                 Each('module.deps.size', 'call FbleRetainType(deps[i])'))]),
        Fn(T, 'FbleTypeCheckProgram', ['program'], [
            Case('a program', [],
                 Each('program.modules.size', 'TypeCheckModule(~, %s, ~).type' % M,
                      Any('TypeCheckModule(~, %s, [$x]).type' % M, 'TypeCheckModule(~, %s, [~[$x]]).type' % M),
                      Each(M + '.deps.size', 'FbleModulePathsEqual(program.modules.xs[$x].path, %s.deps.xs[j])' % M)),
                 Each('program.modules.size', '~[i] := TypeCheckModule(~, %s, ~).tc' % M),
                 Each('program.modules.size', '~[i] := TypeCheckModule(~, %s, ~).type' % M))],
           domain={'$x': r'FbleModulePathsEqual\(program\.modules\.xs\[(.*?)\]\.path, program'}),
        Fn(T, 'DepolyType', ['th', 'type', 'vars'], [
            Case('a type', [], 'return $p\'', 'init($p) = FbleNormalType(type)',
                 Each('~', '$p.tag == FBLE_POLY_TYPE', 'next($p) = FbleNormalType($p.body)', '~.var := $p.arg', '~.value := 0'),
                 Ends('$p.tag != FBLE_POLY_TYPE'))], ways='all'),
        # types
        Fn(Y, 'TypesEqual', ['heap', 'vars', 'a', 'b', 'eq'], [Case('two types', [], types_equal(), 'readonly eq')],
           domain={'$A': r'FbleNormalType\((?:a|vars\.xs\[(?:[^\[\]]|\[[^\[\]]*\])*?\]\.value)\)', '$k': r'vars\.xs\[((?:[^\[\]]|\[[^\[\]]*\])*?)\]', '$n': r'(node\[[^\[\]]*\])\.a|(\?\w+\'?)\.a'}),
        Fn(Y, 'FbleTypeInfer', ['heap', 'vars', 'abstract', 'concrete'], [Case('two types', [], 'TypesEqual(vars, abstract, concrete, 0)')]),
        Fn(Y, 'FbleTypesEqual', ['heap', 'a', 'b'], [Case('two types', [], Any('FbleTypeInfer({.size=0, .xs=0}, a, b)', 'TypesEqual({.size=0, .xs=0}, a, b, 0)'))]),
        Fn('lib/kind.c' if False else Y, 'FbleKindsEqual', ['a', 'b'], [
            Case('FBLE_BASIC_KIND', ['a.tag == FBLE_BASIC_KIND'], 'a.tag == b.tag', 'a.level == b.level'),
            Case('FBLE_POLY_KIND', ['a.tag == FBLE_POLY_KIND'], 'a.tag == b.tag', 'FbleKindsEqual(a.arg, b.arg)', 'FbleKindsEqual(a.rkind, b.rkind)')]),
        Fn(Y, 'FbleGetKindLevel', ['kind'], [
            Case('FBLE_BASIC_KIND', ['kind.tag == FBLE_BASIC_KIND'], 'return kind.level'),
            Case('FBLE_POLY_KIND', ['kind.tag == FBLE_POLY_KIND'], 'return FbleGetKindLevel(kind.rkind)')], ways='all'),
        Fn(Y, 'FbleGetKind', ['type'], [
            Case(t, ['type.tag == ' + t], 'return FbleNewBasicKind(type.loc, 0)') for t in ('FBLE_DATA_TYPE', 'FBLE_FUNC_TYPE', 'FBLE_PACKAGE_TYPE', 'FBLE_ABSTRACT_TYPE')] + [
            Case('FBLE_POLY_TYPE', ['type.tag == FBLE_POLY_TYPE'], 'return FbleAllocRaw(~)', 'FbleAllocRaw(~).tag := FBLE_POLY_KIND',
                 'FbleAllocRaw(~).arg := LevelAdjustedKind(FbleGetKind(type.arg), 1)', 'FbleAllocRaw(~).rkind := FbleGetKind(type.body)'),
            Case('FBLE_POLY_APPLY_TYPE', ['type.tag == FBLE_POLY_APPLY_TYPE'], 'return FbleGetKind(type.poly).rkind'),
            Case('FBLE_VAR_TYPE', ['type.tag == FBLE_VAR_TYPE'], 'return type.kind'),
            Case('FBLE_TYPE_TYPE', ['type.tag == FBLE_TYPE_TYPE'], 'return LevelAdjustedKind(FbleGetKind(type.type), 1)')], ways='all', opaque=['LevelAdjustedKind']),
        Fn(Y, 'LevelAdjustedKind', ['kind', 'increment'], [
            Case('FBLE_BASIC_KIND', ['kind.tag == FBLE_BASIC_KIND'], 'return FbleAllocRaw(~)', 'FbleAllocRaw(~).tag := FBLE_BASIC_KIND',
                 Any('FbleAllocRaw(~).level := increment+kind.level', 'FbleAllocRaw(~).level := kind.level+increment')),
            Case('FBLE_POLY_KIND', ['kind.tag == FBLE_POLY_KIND'], 'return FbleAllocRaw(~)', 'FbleAllocRaw(~).tag := FBLE_POLY_KIND',
                 'FbleAllocRaw(~).arg := kind.arg', 'FbleAllocRaw(~).rkind := LevelAdjustedKind(kind.rkind, increment)')], ways='all'),
        Fn(Y, 'FbleValueOfType', ['heap', 'typeof'], [
            Case('a type', [], 'typeof.tag == FBLE_TYPE_TYPE', 'return typeof.type')]),
        Fn(Y, 'FbleListElementType', ['heap', 'type'], [
            Case('a list', [], N + '.tag == FBLE_DATA_TYPE', N + '.datatype == FBLE_UNION_DATATYPE', N + '.fields.size == 2',
                 struct(N1, 0), struct(N0, 2), 'FbleTypesEqual(type, %s.fields.xs[1].type)' % N0, 'return %s.fields.xs.type' % N0)]),
        Fn(Y, 'FbleTypeIsVacuous', ['heap', 'type'], [
            Case('a type', [], 'init($n) = Normal(type, 0)', "!$m'",
                 Each('~', '$n.tag == FBLE_TYPE_TYPE', 'next($n) = Normal($n.type, 0)'),
                 Each('~', '$m.tag == FBLE_POLY_TYPE', 'next($m) = Normal($m.body, 0)'))]),
        Fn('lib/name.c', 'FbleNamesEqual', ['a', 'b'], [Case('two names', [], 'a.space == b.space', '!strcmp(&a.name.str[0], &b.name.str[0])')]),
        Fn('lib/module-path.c', 'FbleModulePathsEqual', ['a', 'b'], [
            Case('two paths', [], 'a.path.size == b.path.size', Each('a.path.size', 'FbleNamesEqual(a.path.xs[i], b.path.xs[i])'))]),
        Fn('lib/module-path.c', 'FbleModuleBelongsToPackage', ['module', 'package'], [
            Case('a module', [], 'module.path.size >= package.path.size', Each('package.path.size', 'FbleNamesEqual(module.path.xs[i], package.path.xs[i])'))]),
    ]
    return out


KNOWN = {'CheckNameSpace', 'TypeCheckExpr', 'TypeCheckType', 'TypeCheckExprForType', 'PolyApply', 'TypeInferArgs', 'DepolyType', 'GetVar',
         'PushLocalVar', 'PushLocalTypeVar', 'PopLocalVar', 'InitScope', 'FreeScope', 'ReportError', 'NewCleaner', 'CleanType', 'CleanTc',
         'CleanTypeAssignmentV', 'CleanTcBinding', 'Cleanup', 'CopyTcBinding', 'FreeTc', 'TypeCheckExprWithCleaner', 'TypeCheckTypeWithCleaner',
         'TypeCheckModule', 'FbleTypesEqual', 'FbleTypeInfer', 'TypesEqual', 'FbleKindsEqual', 'FbleGetKind', 'FbleNormalType', 'Normal', 'Subst',
         'FbleValueOfType', 'FbleNamesEqual', 'FbleModulePathsEqual', 'FbleNewVarType', 'FbleNewPolyApplyType', 'FbleNewPolyType',
         'FbleGetKindLevel', 'FbleListElementType', 'FbleTypeIsVacuous', 'FbleNewBasicKind', 'FbleCopyKind', 'FbleAssignVarType', 'HasParam'}
READERS = {'TypesEqual', 'Subst', 'Normal', 'GetVar'}
CTX = {'FbleTypeHeap*': 'th', 'Scope*': 'scope', 'Cleaner*': 'cleaner'}


class Checker(object):
    def __init__(self, tus):
        self.tus = tus
        self.found = []
        self.stats = {'functions': 0, 'ways': 0, 'obligations': 0}

    def ways(self, tu, name, params, opaque=(), only=None, pure=(), watch=None, stirs={}):
        f = tu.functions.get(name)
        if f is None or f.body is None:
            raise Unsupported('there is no %s any more' % name)
        if len(f.params) != len(params):
            raise Unsupported('%s has other parameters' % name)
        for o in only or ():
            if o not in tu.functions and o not in tu.protos:
                raise Unsupported('there is no %s any more' % o)
        args, ctx = [], set()
        for p, nm in zip(f.params, params):
            c = CTX.get((p[1] or '').replace(' ', ''))
            if c is not None:
                nm = c
                ctx.add(c)
            args.append(('sym', nm))
        ev = terms.Eval(tu, opaque=((KNOWN | set(opaque)) if only is None else set(only)) | {name})
        ev.pure |= set(pure)
        ev.exact = True
        ev.elements = False
        ev.pure |= READERS
        ev.stirs = stirs
        ev.watch = watch if watch is not None else {'FbleTypesEqual': 'opaque'}
        for kind, st, v in ev.function(name, tuple(args)):
            if kind not in ('return', 'next'):
                continue
            w = facts.Way(ev, kind, st, v, ctx)
            if w.feasible:
                yield w

    def accepts(self, w):
        v = w.v
        if v is None or v == terms.ZERO:
            return False
        if v[0] == 'agg':
            d = {p: x for p, x in v[1]}
            t = d.get((('f', 'type'),))
            if t == terms.ZERO:
                return False
        w.accepts(v)
        return True

    def demand(self, fn, file, what, J, w, line, need):
        for r in need:
            self.stats['obligations'] += 1
            miss = J.judge(r)
            if miss is not None:
                self.found.append((file, fn, line, '%s is accepted without: %s' % (what, miss)))

    def line(self, tu, w, name):
        f = tu.functions[name]
        ls = [e[2] for e in w.log if e[2]]
        return ls[-1] if ls else getattr(f, 'line', 0) or 0

    def function(self, fn):
        tu = self.tus[fn.file]
        self.stats['functions'] += 1
        seen = set()
        for w in self.ways(tu, fn.name, fn.params, fn.opaque, fn.only, fn.pure, fn.watch, fn.stirs):
            if any(re.search(r'\.opaque := 0$', f) for f in w.facts):
                self.found.append((fn.file, fn.name, self.line(tu, w, fn.name), 'a package is left open to view'))
            if not self.accepts(w) and fn.ways != 'all':
                continue
            self.stats['ways'] += 1
            J = Judge(w, tu.enums, fn.domain)
            if J.absurd([c.when for c in fn.cases]):
                continue
            ok = False
            for c in fn.cases:
                if not J.possible(c.when):
                    continue
                ok = True
                seen.add(c.name)
                self.demand(fn.name, fn.file, c.name, J, w, self.line(tu, w, fn.name), c.need if len(c.need) == 1 else [All(*c.need)] if any(J.metas(n) for n in c.need) else c.need)
            if not ok:
                self.found.append((fn.file, fn.name, self.line(tu, w, fn.name), 'accepts a kind of thing no rule allows'))
        for c in fn.cases:
            if c.name not in seen:
                self.found.append((fn.file, fn.name, 0, 'nothing accepts ' + c.name))



def table():
    R = expressions()
    return [Fn('lib/typecheck.c', 'TypeCheckExprWithCleaner', ['th', 'scope', 'expr', 'cleaner'], [Case(t, ['expr.tag == ' + t], *R[t]) for t in sorted(R)])] + functions()


BAD = (Unsupported, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError)


def check(fns=None):
    """Findings of the rules of functions."""
    fns = fns or table()
    out = []
    gen = fe.Gen()
    try:
        tus = {}
        for fn in fns:
            r = {'rel': fn.file, 'func': fn.name, 'status': 'ok', 'violations': [], 'stats': {'ways': 0, 'obligations': 0}, 'samples': []}
            out.append(r)
            try:
                if fn.file not in tus:
                    tus[fn.file] = fe.TU(fn.file, gen)
                c = Checker(tus)
                c.function(fn)
            except fe.Broken as x:
                r['status'] = 'broken'; r['why'] = str(x)[:200]
                continue
            except BAD as x:
                r['status'] = 'undecided'; r['why'] = '%s: %s' % (type(x).__name__, str(x)[:200])
                continue
            r['stats'] = {'ways': c.stats['ways'], 'obligations': c.stats['obligations']}
            for file, f, line, msg in c.found:
                file = 'lib/parse.y' if file == fe.RULES else file
                r['violations'].append({'rule': 'rules', 'file': file, 'line': line, 'function': f, 'root': f, 'msg': msg[:600], 'path': ''})
    finally:
        gen.close()
    return out


if __name__ == '__main__':
    for r in check():
        if r['status'] != 'ok':
            print((r['func'], r['status'], r['why']))
        for v in r['violations']:
            print((v['file'], v['function'], v['line'], v['msg']))
