"""What each backend does for each instruction, as compared with each other.

The interpreter is evaluated (terms.py) for one generic turn of its loop; the
code generators are evaluated to templates of the text they emit for one
generic instruction.  C templates are parsed by clang and evaluated like the
interpreter; assembly templates are run through a model of the few machine
instructions they use.  All three give, per kind of instruction, the runtime
operations performed, on which operands, under which test outcomes, and how
control goes on.  That is compared with the table below.
"""
import os, re
import fe, terms
from terms import Rep, Unsupported, mentions, subst, add, mul, ZERO

CARG = {'struct': ('FbleNewStructValue', 'I.args.size', '[get(I.args.xs[*])]*I.args.size')}


def spec(T):
    """Kind of instruction -> [(test outcomes, operations, way on, stores)]."""
    args = '[get(I.args.xs[*])]*I.args.size'

    def simple(call, fn):
        return [({}, [call], 'next', {'I.dest': '$' + fn})]

    def access(fn, msg):
        c = '%s(get(I.obj), I.tag)' % fn
        return [({'$' + fn: False}, [c, 'report(%s, I.loc)' % msg], 'return 0', {})]

    return {
        'FBLE_STRUCT_VALUE_INSTR': simple('FbleNewStructValue(heap, I.args.size, %s)' % args, 'FbleNewStructValue'),
        'FBLE_UNION_VALUE_INSTR': simple('FbleNewUnionValue(heap, I.tag, get(I.arg))', 'FbleNewUnionValue'),
        'FBLE_STRUCT_ACCESS_INSTR': access('FbleStructValueField', 'undefined struct value access') +
        [({'$FbleStructValueField': True}, ['FbleStructValueField(get(I.obj), I.tag)'], 'next', {'I.dest': '$FbleStructValueField'})],
        'FBLE_UNION_ACCESS_INSTR': access('FbleUnionValueField', 'undefined union value access') +
        [({'$FbleUnionValueField': True, '$FbleUnionValueField==WRONG': True},
          ['FbleUnionValueField(get(I.obj), I.tag)', 'report(union field access undefined: wrong tag, I.loc)'], 'return 0', {}),
         ({'$FbleUnionValueField': True, '$FbleUnionValueField==WRONG': False}, ['FbleUnionValueField(get(I.obj), I.tag)'], 'next',
          {'I.dest': '$FbleUnionValueField'})],
        'FBLE_UNION_SELECT_INSTR': [
            ({'$FbleUnionValueTag==-1': True}, ['FbleUnionValueTag(get(I.condition))', 'report(undefined union value select, I.loc)'], 'return 0', {}),
            ({'$FbleUnionValueTag==-1': False}, ['FbleUnionValueTag(get(I.condition))'], 'select', {})],
        'FBLE_GOTO_INSTR': [({}, [], 'jump I.target', {})],
        'FBLE_FUNC_VALUE_INSTR': [({}, ['newfunc(heap, I.code, block+I.profile_block_offset, [get(I.scope.xs[*])]*I.scope.size)'], 'next', {'I.dest': '$newfunc'})],
        'FBLE_CALL_INSTR': [
            ({'$FbleCall': False}, ['FbleCall(heap, profile, get(I.func), I.args.size, %s)' % args, 'report(callee aborted, I.loc)'], 'return 0', {}),
            ({'$FbleCall': True}, ['FbleCall(heap, profile, get(I.func), I.args.size, %s)' % args], 'next', {'I.dest': '$FbleCall'})],
        'FBLE_TAIL_CALL_INSTR': [
            ({'$FbleFuncValueFunction': False}, ['FbleFuncValueFunction(get(I.func))', 'report(called undefined function, I.loc)'], 'return 0', {}),
            ({'$FbleFuncValueFunction': True}, ['FbleFuncValueFunction(get(I.func))',
             'FbleTailCall(heap, $FbleFuncValueFunction, get(I.func), I.args.size, %s)' % args], 'return $FbleTailCall', {})],
        'FBLE_COPY_INSTR': [({}, [], 'next', {'I.dest': 'get(I.source)'})],
        'FBLE_REF_VALUE_INSTR': simple('FbleNewRefValue(heap)', 'FbleNewRefValue'),
        'FBLE_REF_DEF_INSTR': [
            ({'$FbleAssignRefValue': False}, ['FbleAssignRefValue(heap, local(I.ref), get(I.value))', 'report(vacuous value, I.loc)'], 'return 0', {}),
            ({'$FbleAssignRefValue': True}, ['FbleAssignRefValue(heap, local(I.ref), get(I.value))'], 'next', {})],
        'FBLE_RETURN_INSTR': [({}, [], 'return get(I.result)', {})],
        'FBLE_TYPE_INSTR': [({}, [], 'next', {'I.dest': 'FbleGenericTypeValue'})],
        'FBLE_LIST_INSTR': simple('FbleNewListValue(heap, I.args.size, %s)' % args, 'FbleNewListValue'),
        'FBLE_LITERAL_INSTR': simple('FbleNewLiteralValue(heap, I.letters.size, [I.letters.xs[*]]*I.letters.size)', 'FbleNewLiteralValue'),
        'FBLE_NOP_INSTR': [({}, [], 'next', {})],
    }.get(T)


PROFILE = {
    'FBLE_PROFILE_ENTER_OP': 'FbleProfileEnterBlock(profile, block+op.arg)',
    'FBLE_PROFILE_REPLACE_OP': 'FbleProfileReplaceBlock(profile, block+op.arg)',
    'FBLE_PROFILE_EXIT_OP': 'FbleProfileExitBlock(profile)',
    'FBLE_PROFILE_SAMPLE_OP': 'FbleProfileRandomSample(profile, op.arg)',
}

ABORTS = {'FBLE_STRUCT_ACCESS_INSTR', 'FBLE_UNION_ACCESS_INSTR', 'FBLE_UNION_SELECT_INSTR', 'FBLE_CALL_INSTR', 'FBLE_TAIL_CALL_INSTR', 'FBLE_REF_DEF_INSTR'}


class Behaviour(object):
    """One way through one kind of instruction."""

    def __init__(self, tag, profiled, optag, conds, ops, end, sets, line, notes=()):
        self.tag = tag; self.profiled = profiled; self.optag = optag; self.conds = conds; self.ops = ops; self.end = end
        self.sets = sets; self.line = line; self.notes = list(notes)

    def __repr__(self):
        return '%s profile=%s op=%s %s: %s -> %s %s %s' % (self.tag, self.profiled, self.optag, self.conds, self.ops, self.end, self.sets, self.notes)


class Render(object):
    """Terms as text, over the parts of one instruction."""

    def __init__(self, instr, params, code=None, wrong=2):
        self.I = instr; self.params = params; self.locals = None; self.wrong = wrong; self.code = code
        self.pc = None; self.names = {}

    def path(self, p):
        out = ''
        for e in p:
            out += '.' + e[1].split('.')[-1] if e[0] == 'f' else '[' + self(e[1]) + ']'
        return out

    def islocals(self, t):
        return t[0] == 'addr' and self.locals is not None and t[1] == self.locals

    def base(self, t):
        """Names of the arrays variables live in."""
        r = self(t)
        return {'function.statics': 's', 'args': 'a', 'locals': 'l', 's': 's', 'a': 'a', 'l': 'l',
                'R_STATICS': 's', 'R_ARGS': 'a', 'R_LOCALS': 'l'}.get(r, r)

    def get(self, table, sel, idx):
        """A variable: element idx of the array that sel selects."""
        names = [self.base(t) for t in table]
        s, i = self(sel), self(idx)
        if names == ['s', 'a', 'l'] and s.endswith('.tag') and i.endswith('.index') and s[:-4] == i[:-6]:
            return 'get(%s)' % s[:-4]
        return 'var(%s by %s)[%s]' % (','.join(names), s, i)

    def __call__(self, t):
        if t == self.I:
            return 'I'
        if t in self.names:
            return self.names[t]
        k = t[0]
        if k == 'int':
            return str(t[1])
        if k == 'zero':
            return '0'
        if k == 'str':
            return '"%s"' % t[1]
        if k == 'sym':
            return self.params.get(t[1], t[1])
        if k == 'gl':
            return t[1]
        if k == 'text':
            return t[1]
        if k == 'fn':
            return '&' + t[1]
        if k == 'each':
            return '*'
        if k == 'node':
            return 'op' if self(t[1]).endswith('profile_ops') else 'each(%s)' % self(t[1])
        if k in ('ld', 'undef', 'proj'):
            b, p = t[1], t[2]
            if k == 'undef':
                if self.locals is not None and ('var', b) == self.locals and len(p) == 1 and p[0][0] == 'i':
                    return 'local(%s)' % self(p[0][1])
                return 'undef:%s%s' % (b, self.path(p))
            if b[0] == 'tab' and len(p) == 1 and p[0][0] == 'i':
                return self.get(b[1], b[2], p[0][1])
            if b[0] == 'addr' and self.islocals(b):
                return 'local' + self.path(p)
            r = self(b) + self.path(p)
            if r == 'function.profile_block_id':
                return 'block'
            return r
        if k == 'addr':
            if self.islocals(t):
                return 'locals'
            if t[1][0] in ('var',):
                return '&%s%s' % (t[1][1], self.path(t[2]))
            p = t[2]
            if p and p[-1] == ('i', ZERO):
                p = p[:-1]
                return (self(t[1]) + self.path(p))
            return '&' + self(t[1]) + self.path(p)
        if k == 'padd':
            return '%s+%s' % (self(t[1]), self(t[2]))
        if k == 'lin':
            parts = sorted(('%s' if c == 1 else '%s*' + str(c)) % self(x) for x, c in t[2])
            parts = [p for p in parts if p == 'block'] + [p for p in parts if p != 'block']
            return '+'.join(parts) + ('' if t[1] == 0 else '%+d' % t[1])
        if k == 'res':
            return '$' + {'FbleNewInterpretedFuncValue': 'newfunc', 'FbleNewFuncValue': 'newfunc', 'FbleNewStructValue_': 'FbleNewStructValue',
                          'FbleNewListValue_': 'FbleNewListValue'}.get(t[2], str(t[2]))
        if k == 'arr':
            return self.array(t[1])
        if k == 'tab':
            return 'tab(%s)[%s]' % (','.join(self(x) for x in t[1]), self(t[2]))
        if k == 'bool':
            return ('' if t[2] else '!') + self.cond(t[1])
        if k == 'out':
            return '%s(%s)' % (t[1], ','.join(self(x) for x in t[2]))
        if k == 'agg':
            if t[2] is not None and not t[1]:
                return self(t[2])
            return '{%s}' % ','.join('%s=%s' % (self.path(p), self(x)) for p, x in t[1])
        if k == 'ref':
            return '&{%s}' % ','.join('%s=%s' % (self.path(p), self(x)) for p, x in t[1])
        return '?' + ':'.join(str(x) if not isinstance(x, tuple) else self(x) for x in t)

    def array(self, cells):
        vals = [(p, x) for p, x in cells if x[0] != 'undef' and x != ('zero',)]
        if not vals and any(x == ('zero',) for p, x in cells):
            return '[]'
        if len(vals) == 1:
            (p, x), = vals
            n = self.range(p, x)
            if n is not None:
                return '[%s]*%s' % (self(x), self(n))
        return '[%s]' % '; '.join('%s: %s' % (self.path(p), self(x)) for p, x in vals)

    def range(self, p, x):
        """The number of elements a generic element stands for."""
        ns = eachs(x, self.I)
        if len(p) == 1 and p[0][0] == 'i':
            k = p[0][1]
            if k[0] == 'each' and (ns == {k[1]} or not ns):
                return k[1]
            if k == ZERO and len(ns) == 1:
                return next(iter(ns))
        return None

    def cond(self, a):
        if a[0] == 'nz':
            return self(a[1])
        r = [self(a[1]), self(a[2])]
        if r[0] == str(self.wrong) or r[1] == str(self.wrong):
            r = [('WRONG' if x == str(self.wrong) else x) for x in r]
        if a[0] == 'eq':
            if r[1].startswith('$'):
                r.reverse()
            return '%s==%s' % tuple(r)
        return '%s<%s' % tuple(r)


def eachs(t, I=None):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x == I:
                return
            if len(x) == 2 and x[0] == 'each':
                out.add(x[1])
                return
            if len(x) == 3 and x[0] == 'tab':
                go(x[2])
                return
            for y in x:
                go(y)
    go(t)
    return out


def norm(s):
    """Facts about instructions that make differently written operands the same."""
    s = s.replace('I.code.executable.num_statics', 'I.scope.size')
    return s


# -- finding the generic instruction ---------------------------------------------
ITAG = ('f', 'FbleInstr.tag')


def instr_of(cons):
    for a in cons:
        for t in a[1:]:
            if isinstance(t, tuple) and t and t[0] == 'ld' and t[2] and t[2][-1] == ITAG and len(t[2]) == 1:
                return t[1]
    return None


def enum_of(tu, enum, key, cons, eqs):
    """The enumerator a value is known to be: found equal to, or left over."""
    vals = tu.enums.get(enum, ())
    k = eqs.get(key)
    if k is None:
        out = set()
        for a, b in cons.items():
            if b is False and a[0] == 'eq' and key in a[1:]:
                o = a[2] if a[1] == key else a[1]
                if o[0] == 'int':
                    out.add(o[1])
            elif a == ('nz', key):
                if b is False:
                    k = 0
                else:
                    out.add(0)
        left = {v for n, v in vals} - out
        if k is None and len(left) == 1 and len(out) > 0:
            k = next(iter(left))
    for n, v in vals:
        if v == k:
            return n
    return None


def tag_of(tu, st, I):
    return enum_of(tu, 'FbleInstrTag', ('ld', I, (ITAG,)), st.cons, st.eqs)


def optag_of(tu, cons, eqs):
    keys = set(eqs)
    for a in cons:
        keys.update(x for x in a[1:] if isinstance(x, tuple))
    for t in sorted(keys, key=repr):
        if t[0] == 'ld' and t[1][0] == 'node' and t[1][2] == 'next' and t[2] == (('f', 'tag'),):
            if t[1][1][0] == 'ld' and t[1][1][2] and t[1][1][2][-1] == ('f', 'FbleInstr.profile_ops'):
                n = enum_of(tu, 'FbleProfileOpTag', t, cons, eqs)
                if n is not None:
                    return n
    return None


def find_instr(events):
    """Loops over instructions anywhere in a trace: [(chain of enclosing
    (events, rep, path) , rep)]"""
    out = []

    def go(evs, chain):
        for i, e in enumerate(evs):
            if isinstance(e, Rep):
                hit = False
                for p in e.paths:
                    own = {a: b for a, b in p.cons.items() if a not in e.head.cons}
                    I = instr_of(own)
                    if I is not None and any(True for a in own if a[0] in ('nz', 'eq') and a[1] == ('ld', I, (ITAG,))):
                        hit = True
                if hit:
                    out.append((chain + [(evs, i, None)], e))
                else:
                    for p in e.paths:
                        go(p.events, chain + [(evs, i, p)])
    go(events, [])
    return out


def spelled(conv, t, before):
    """A number in a text is the number meant only if it is printed in full, in decimal; within a name any way will do."""
    if before and isinstance(before[-1], str) and re.search(r'[\w.$]$', before[-1]) and not re.search(r'\b0$', before[-1]):
        return t
    conv = conv.lstrip('%')
    if conv[-1:] in 'di' or conv[-1:] == 'u':
        return ('out', 'padded number', (t,)) if re.match(r"[-+ #']*0", conv) or re.search(r'hh?[diu]$', conv) else t
    if conv[-1:] in ('o', 'x', 'X', 'a', 'e', 'f', 'g'):
        return ('out', 'number printed with %' + conv, (t,))
    return t


def expand(events, limit=64):
    """Chooses one path in each loop of a trace: [(flat events, cons, eqs)];
    marks where a loop runs backwards."""
    res = [((), {}, {})]
    for e in events:
        nxt = []
        if isinstance(e, Rep):
            opts = []
            for p in e.paths:
                own = {a: b for a, b in p.cons.items() if a not in e.head.cons}
                eq = {a: b for a, b in p.eqs.items() if a not in e.head.eqs}
                for f, c, q in expand(p.events, limit):
                    c2 = dict(own); c2.update(c)
                    q2 = dict(eq); q2.update(q)
                    opts.append((f, c2, q2))
            # what does nothing need not be chosen
            busy = [o for o in opts if o[0]]
            if not busy:
                nxt = res
            else:
                if any(len(o[0]) for o in opts):
                    opts = busy
                for f, c, q in res:
                    for f2, c2, q2 in opts:
                        c3 = dict(c); c3.update(c2)
                        q3 = dict(q); q3.update(q2)
                        nxt.append((f + (('rep', e.dir, e.n),) + f2 + (('per', e.dir, e.n),), c3, q3))
        else:
            nxt = [(f + (e,), c, q) for f, c, q in res]
        res = nxt[:limit]
    return res


# -- the interpreter ---------------------------------------------------------------
class Interpreter(object):
    name = 'interpreter'
    file = 'lib/interpret.c'

    def behaviours(self, tu, gen):
        out = []
        for f in tu.functions.values():
            if f.file != self.file or len(f.params) != 4 or 'FbleFunction' not in f.params[2][1] or f.body is None or 'FbleValue' not in f.ret:
                continue
            self.func = f
            ev = terms.Eval(tu)
            params = {p[0]: n for p, n in zip(f.params, ('heap', 'profile', 'function', 'args'))}
            for kind, st, v in ev.function(f.name):
                rep = next((e for e in st.events if isinstance(e, Rep) and any(tag_of(tu, p, instr_of(p.cons)) if instr_of(p.cons) else None for p in e.paths)), None)
                if rep is None:
                    continue
                if not out:
                    for p in rep.paths:
                        out += self.path(tu, ev, f, params, p, p.events, 'loop', None)
                i = st.events.index(rep)
                out += self.path(tu, ev, f, params, st, st.events[i + 1:], 'return', v)
        return out

    def path(self, tu, ev, f, params, st, events, kind, v):
        I = instr_of(st.cons)
        tag = tag_of(tu, st, I) if I else None
        if tag is None:
            return []
        R = Render(I, params)
        # which local array the variables live in: what vars[LOCAL] points to
        for (b, p), x in st.mem.items():
            pass
        loc = None
        for d in fe.walk(f.body):
            if d.k == 'VarDecl' and 'FbleValue *' in (d.ty or '') and '[' in (d.ty or '') and re.search(r'num_locals', src(d)):
                loc = self_var(ev, d)
        R.locals = loc
        out = []
        instrs = None
        for flat, cons, eqs in expand(events):
            c2 = dict(st.cons); c2.update(cons)
            ops, sets, line = [], {}, f.line
            for e in flat:
                if e[0] == 'call':
                    ops.append(op_text(R, e))
                    line = e[4][1]
            for (b, p), x in st.mem.items():
                if b == loc and len(p) == 1 and p[0][0] == 'i':
                    sets[norm(R(p[0][1]))] = norm(R(x))
            notes = []
            if kind == 'return':
                end = 'return ' + norm(R(v))
            else:
                pcs = [(k, x) for k, x in st.mem.items() if I[0] == 'ld' and I[2] and I[2][-1][0] == 'i' and I[2][-1][1][0] == 'any' and k[0][0] == 'var' and not k[1] and k[0][1] == I[2][-1][1][1]]
                pc = I[2][-1][1] if I[0] == 'ld' and I[2] and I[2][-1][0] == 'i' else None
                if not pcs or pc is None:
                    end = 'unknown'
                else:
                    x = pcs[0][1]
                    if x == add(pc, ('int', 1)):
                        end = 'next'
                    else:
                        end = 'jump ' + norm(R(x))
            conds = {norm(R.cond(a)): b for a, b in c2.items() if '$' in R.cond(a)}
            if tag == 'FBLE_UNION_SELECT_INSTR' and end.startswith('jump '):
                end = select(end, conds)
            prof = c2.get(('nz', ('sym', f.params[1][0])))
            out.append(Behaviour(tag, prof, optag_of(tu, cons, eqs), conds, ops, end, sets, line, notes))
        return out


def select(end, conds):
    """A jump to the target of the branch found equal, or to the default."""
    t = end[5:]
    if t == 'I.default_':
        return 'select'
    m = re.match(r'I\.targets\.xs\[(.*)\]\.target$', t)
    if m:
        tag = 'I.targets.xs[%s].tag' % m.group(1)
        for c, b in conds.items():
            if b and c in ('$FbleUnionValueTag==%s' % tag, '%s==$FbleUnionValueTag' % tag):
                return 'select'
    return end


def src(d):
    try:
        return open(fe.REPO + '/' + d.file).read().split('\n')[d.line - 1]
    except Exception:
        return ''


def self_var(ev, d):
    fr = ev.fr
    return ('var', fr.vars[d.id]) if d.id in fr.vars else None


MSG = re.compile(r'^(.*?):(.*?):(.*?): error: (.*?)\n?$', re.S)


def op_text(R, e):
    """An event as an operation."""
    name, vals = e[1], e[2]
    if name == 'FbleReportError':
        return 'report(%s, %s)' % (vals[0][1].rstrip('\n') if vals[0][0] == 'str' else R(vals[0]), norm(R(vals[1])) if len(vals) > 1 else '')
    if name in ('FbleNewStructValue_', 'FbleNewListValue_'):
        name = name[:-1]
        rest = vals[2:]
        if not rest:
            vals = vals[:2] + (('text', '[]'),)
        elif len(rest) == 1 and len(eachs(rest[0], R.I)) == 1:
            vals = vals[:2] + (('text', '[%s]*%s' % (R(rest[0]), R(next(iter(eachs(rest[0], R.I)))))),)
        else:
            vals = vals[:2] + (('text', '[%s]' % ','.join(R(x) for x in rest)),)
    args = [norm(R(v)) for v in vals]
    if name == 'FbleNewInterpretedFuncValue':
        name = 'newfunc'
    if name == 'FbleNewLiteralValue' and args[-1] == 'I.letters.xs':
        args[-1] = '[I.letters.xs[*]]*I.letters.size'
    return '%s(%s)' % (name, ', '.join(args))


# -- templates of generated C ------------------------------------------------------
class Holes(object):
    """Names for the terms in a text."""

    def __init__(self):
        self.ids = {}; self.terms = []

    def of(self, t):
        if t not in self.ids:
            self.ids[t] = len(self.terms); self.terms.append(t)
        return self.ids[t]


class CBackend(object):
    name = 'C generator'
    file = 'lib/c.c'
    entry = 'FbleGenerateC'
    EXTRA = ''

    def __init__(self):
        self.undecided = []
        self.count = 0; self.files = 0

    def behaviours(self, tu, gen):
        out = []
        ev = terms.Eval(tu)
        for kind, st, v in ev.function(self.entry):
            hits = find_instr(st.events)
            for chain, rep in hits:
                if len(chain) != 2 or chain[0][2] is None:
                    # a loop over blocks, and in it one over instructions
                    if len(chain) == 1:
                        continue
                    self.undecided.append('instructions are not visited block by block'); continue
                top, ti, block = chain[0]
                evs, ri, _ = chain[1]
                out += self.paths(tu, gen, ev, st, top, ti, block, evs, ri, rep)
        return out

    def paths(self, tu, gen, ev, st, top, ti, block, evs, ri, rep):
        out = []
        jobs = []
        pre = expand(top[:ti])
        post = expand(top[ti + 1:])
        head = expand(evs[:ri])
        tail = expand(evs[ri + 1:])
        for p in rep.paths:
            I = instr_of(p.cons)
            tag = tag_of(tu, p, I) if I else None
            if tag is None:
                continue
            for flat, cons, eqs in expand(p.events):
                jobs.append((tag, I, p, flat, cons, eqs))
        self.count += len(jobs)
        args = (tu, gen, pre[-1][0], head[-1][0], tail[-1][0], post[-1][0])
        try:
            out += self.some(jobs, *args)
        except (Unsupported, fe.Broken):
            for j in jobs:
                try:
                    out += self.some([j], *args)
                except (Unsupported, fe.Broken) as e:
                    self.undecided.append('%s: %s' % (j[0], str(e)[:300]))
        return out

    def text(self, H, events, tabs):
        """The text a trace emits, with names for terms."""
        s = ''
        line = None
        for e in events:
            if e[0] == 'emit':
                for x in e[2]:
                    if isinstance(x, str):
                        s += x
                        continue
                    t = x[2]
                    if t[0] == 'tab' and all(v[0] == 'str' for v in t[1]):
                        k = ('table', tuple(v[1] for v in t[1]), t[2])
                        tabs[k] = H.of(t[2])
                        s += 'T%d[H%d]' % (len(tabs) - 1 if k not in list(tabs)[:-1] else list(tabs).index(k), H.of(t[2]))
                    else:
                        s += ('S%d' if x[1].endswith('s') else 'H%d') % H.of(spelled(x[1], t, [s]))
                line = e[3]
            elif e[0] == 'call':
                # opaque printers of strings
                fs = [v for v in e[2] if v[0] == 'addr' or v[0] == 'str' or v[0] == 'ld']
                if len(e[2]) >= 2 and e[2][0] == ('sym', 'fout'):
                    s += '"S%d"' % H.of(e[2][1])
                line = e[4]
            elif e[0] == 'rep' and e[1] not in ('up', 'list'):
                raise Unsupported('a loop that runs %s' % e[1])
        return s, line

    def some(self, jobs, tu, gen, pre, head, tail, post):
        H = Holes()
        a, _ = self.text(H, pre, {})
        b, _ = self.text(H, head, {})
        d, _ = self.text(H, tail, {})
        e, _ = self.text(H, post, {})
        m = re.search(r'^(static FbleValue\* )(\S+)(\()', b, re.M)
        if not m:
            raise Unsupported('no function around instructions')
        funcs = ''
        lines = []
        for n, job in enumerate(jobs):
            tabs = {}
            c, line = self.text(H, job[3], tabs)
            lines.append(line)
            tabtext = ''.join('FbleValue** T%d[] = {%s};\n' % (i, ','.join(k[1])) for i, k in enumerate(tabs))
            gotos = sorted(set(re.findall(r'\bgoto\s+pc_(H\d+)\s*;', c)))
            if re.search(r'\bgoto\s+(?!pc_H\d+\s*;)', c):
                raise Unsupported('a jump to something else')
            defs = sorted(set(re.findall(r'^pc_(H\d+):', c, re.M)))
            labels = ''.join('pc_%s: return __jump(%s);\n' % (g, g) for g in gotos if g not in defs)
            funcs += b[:m.start(2)] + '__run%d' % n + b[m.end(2):] + '\n' + tabtext + c + '\n;return __next();\n' + labels + d + '\n'
        src = a + '\n#include <stdio.h>\nFbleValue* __next(void);\nFbleValue* __jump(size_t x);\n'
        whole = funcs + e
        known = set(re.findall(r'\b(\w+)\s*(?:\[[^\]]*\])?\s*=\s*\{', whole))
        protos = ''.join('static FbleValue* %s(FbleValueHeap* heap, FbleProfileThread* profile, FbleFunction* function, FbleValue** args);\n' % r
                         for r in sorted(set(re.findall(r'&(\w+)', whole))) if r not in known and re.match(r'S\d+_', r) and r not in a)
        enums = ''.join('H%d = %d,' % (k, 1000 + k) for k in range(len(H.terms)))
        path = os.path.join(gen.dir, 'tmpl_%d.c' % self.files)
        self.files += 1
        with open(path, 'w') as f:
            f.write('#include <stddef.h>\nenum { %s };\n' % enums + src + protos + whole)
        t = fe.TU(path, gen)
        out = []
        for n, job in enumerate(jobs):
            out += self.one(tu, t, '__run%d' % n, H, lines[n], *job)
        return out

    def one(self, tu, t, fname, H, line, tag, I, p, flat, cons, eqs):
        f = t.functions.get(fname)
        if f is None:
            raise Unsupported('no function ' + fname)
        v = terms.Eval(t)
        for k, term in enumerate(H.terms):
            v.holes['H%d' % k] = term
        out = []
        loc = None
        R = Render(I, {})
        R.params = {f.params[0][0]: 'heap', f.params[1][0]: 'profile', f.params[2][0]: 'function', f.params[3][0]: 'args'}
        res = v.function(fname)
        for dcl in fe.walk(f.body):
            if dcl.k == 'VarDecl' and re.match(r'FbleValue \*\[', dcl.ty or ''):
                hs = [x.name for x in fe.walk(dcl) if x.k == 'DeclRefExpr' and x.name in v.holes] or re.findall(r'H\d+', dcl.ty) or re.findall(r'\[(\d+)\]', dcl.ty)
                for h in hs:
                    if h.isdigit():
                        h = 'H%d' % (int(h) - 1000)
                    if h in v.holes and R(v.holes[h]).endswith('.num_locals'):
                        loc = ('var', v.fr.vars[dcl.id]) if dcl.id in v.fr.vars else None
        R.locals = loc
        for kind, st, val in res:
            pc = dict(cons)
            ops, sets = [], {}
            for ev_ in st.events:
                if isinstance(ev_, Rep):
                    raise Unsupported('a loop in generated code')
                if ev_[0] == 'call':
                    if ev_[1] in ('__next', '__jump'):
                        continue
                    ops.append(self.op(R, H, v, ev_))
                elif ev_[0] == 'emit':
                    ops.append(self.report(R, H, ev_))
            for (b_, p_), x in st.mem.items():
                if b_ == loc and len(p_) == 1 and p_[0][0] == 'i':
                    sets[norm(R(p_[0][1]))] = norm(R(x))
            end = 'unknown'
            if kind == 'return' and val is not None:
                if val[0] == 'res' and val[2] == '__next':
                    end = 'next'
                elif val[0] == 'res' and val[2] == '__jump':
                    call = next(e_ for e_ in st.events if e_[0] == 'call' and e_[3] == val)
                    end = 'jump ' + norm(R(call[2][0]))
                else:
                    end = 'return ' + norm(R(val))
            conds = {norm(R.cond(a_)): b_ for a_, b_ in st.cons.items() if '$' in R.cond(a_)}
            for t_, k_ in st.eqs.items():
                if '$' in R(t_):
                    conds['%s==%s' % (R(t_), k_)] = True
            if tag == 'FBLE_UNION_SELECT_INSTR' and end.startswith('jump '):
                end = select(end, conds)
            prof = st.cons.get(('nz', ('sym', f.params[1][0])))
            allc = dict(cons)
            optag = optag_of(tu, cons, eqs)
            hasops = {b2 for a2, b2 in list(p.cons.items()) + list(cons.items()) if a2[0] == 'nz' and a2[1][0] == 'ld' and a2[1][2] and a2[1][2][-1] == ('f', 'FbleInstr.profile_ops')}
            out.append(Behaviour(tag, prof, optag, conds, ops, end, sets, line[1] if line else 0))
        return out

    def op(self, R, H, v, e):
        name, vals = e[1], e[2]
        if name == 'FbleNewFuncValue':
            code = self.code(R, H, v, vals[1])
            vals = (vals[0], ('text', code)) + vals[2:]
            args = [norm(R(x)) for x in vals]
            return 'newfunc(%s)' % ', '.join(args)
        return op_text(R, e)

    def code(self, R, H, v, t):
        """The code an executable given to FbleNewFuncValue stands for."""
        d = {}
        if t[0] in ('ref', 'agg'):
            for p, x in t[1]:
                d[R.path(p).strip('.')] = x
        a, s, r = d.get('num_args'), d.get('num_statics'), d.get('run')
        if a is None or s is None or r is None or r[0] != 'fn':
            raise Unsupported('executable of a new function: %s' % R(t)[:100])
        m = re.match(r'S(\d+)_H(\d+)$', r[1])
        if not m:
            raise Unsupported('name of a run function')
        n, b = H.terms[int(m.group(1))], R(H.terms[int(m.group(2))])
        want = 'I.code'
        if (R(a), R(s), b) == (want + '.executable.num_args', want + '.executable.num_statics', want + '.profile_block_id'):
            return want
        return 'executable(%s, %s, %s)' % (R(a), R(s), b)

    def report(self, R, H, e):
        if R(e[1]) != 'stderr':
            raise Unsupported('output to %s' % R(e[1]))
        s = ''
        parts = []
        for x in e[2]:
            if isinstance(x, str):
                s += x
            else:
                parts.append(R(x[2])); s += '\x00'
        m = re.match(r'^(\x00|S\d+):(\x00):(\x00): error: (\x00|[^\x00]*)\n$', s)
        if not m:
            return 'print(%r %s)' % (s, parts)
        if m.group(1) == '\x00':
            srcname = parts.pop(0)
        else:
            srcname = R(H.terms[int(m.group(1)[1:])])
        l, c = parts[0], parts[1]
        msg = parts[2].strip('"') if m.group(4) == '\x00' else m.group(4)
        base = l[:-5] if l.endswith('.line') else None
        loc = base if base and c == base + '.col' and re.search(r'loc\.source', srcname) else '%s:%s:%s' % (srcname, l, c)
        return 'report(%s, %s)' % (msg, loc)


# -- generated assembly ---------------------------------------------------------------
SAVED = ['x%d' % i for i in range(19, 31)]


def value(t, env):
    """A number for a term, given numbers for its parts."""
    if t in env:
        return env[t]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'lin':
        return t[1] + sum(value(x, env) * c for x, c in t[2])
    if t[0] == 'op':
        a, b = value(t[2], env), value(t[3], env)
        return {'/': lambda: a // b, '%': lambda: a % b, '*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b, '<<': lambda: a << b,
                '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[t[1]]()
    if t[0] == 'not' or t[0] == 'un':
        raise Unsupported('arithmetic')
    raise Unsupported('arithmetic on %s' % (t[0],))


def unknowns(t):
    if t[0] == 'lin':
        return set().union(*[unknowns(x) for x, c in t[2]]) if t[2] else set()
    if t[0] == 'op':
        return unknowns(t[2]) | unknowns(t[3])
    if t[0] == 'int':
        return set()
    return {t}


class Bad(Exception):
    """Generated code that does something it must not."""


class Machine(object):
    __slots__ = ('regs', 'mem', 'conds', 'cmp', 'ops', 'calls', 'stack', 'sets')

    def copy(self):
        m = Machine.__new__(Machine)
        m.regs = dict(self.regs); m.mem = dict(self.mem); m.conds = dict(self.conds); m.cmp = self.cmp; m.ops = list(self.ops)
        m.calls = self.calls; m.stack = list(self.stack); m.sets = dict(self.sets)
        return m


class AArch64Backend(object):
    name = 'AArch64 generator'
    file = 'lib/aarch64.c'
    entry = 'FbleGenerateAArch64'

    def __init__(self):
        self.undecided = []
        self.count = 0

    def behaviours(self, tu, gen):
        out = []
        self.tu = tu
        path = os.path.join(gen.dir, 'runtime_protos.c')
        with open(path, 'w') as f:
            f.write('#include <fble/fble-value.h>\n#include <fble/fble-function.h>\n#include <fble/fble-profile.h>\n#include <fble/fble-generate.h>\n')
        self.protos = fe.TU(path, gen).protos
        self.rec = tu.rec_by_name
        ev = terms.Eval(tu)
        self.ev = ev
        for kind, st, v in ev.function(self.entry):
            hits = find_instr(st.events)
            groups = {}
            for chain, rep in hits:
                if len(chain) == 2 and chain[0][2] is not None:
                    groups.setdefault((chain[0][1], id(chain[0][2])), []).append((chain, rep))
            for (ti, _), g in sorted(groups.items()):
                if not any(self.emits(p) for _, r in g for p in r.paths):
                    continue
                out += self.group(g)
        return out

    def emits(self, p):
        return any(e[0] == 'emit' and any(isinstance(x, str) and re.search(r'^\s*(bl|ldr|str|mov)\s', x, re.M) for x in e[2]) for e in p.events if not isinstance(e, Rep))

    def group(self, g):
        chain = g[0][0]
        top, ti, block = chain[0]
        evs = block.events
        g = sorted(g, key=lambda x: x[0][1][1])
        pre = self.lines(expand(top[:ti])[-1][0])
        segs = []
        at = 0
        reps = []
        for ch, rep in g:
            ri = ch[1][1]
            segs.append(self.lines(expand(evs[at:ri])[-1][0]))
            reps.append(rep)
            at = ri + 1
        segs.append(self.lines(expand(evs[at:])[-1][0]))
        post = self.lines(expand(top[ti + 1:])[-1][0])
        # one option in each loop, for the same kind of instruction
        opts = []
        for rep in reps:
            if rep.dir not in ('up',):
                self.undecided.append('instructions are not visited in order')
                return []
            o = []
            for p in rep.paths:
                I = instr_of(p.cons)
                tag = tag_of(self.tu, p, I) if I else None
                if tag is None and not opts:
                    continue
                for flat, cons, eqs in expand(p.events):
                    c = dict(p.cons); c.update(cons)
                    q = dict(p.eqs); q.update(eqs)
                    o.append((tag, I, flat, c, q))
            opts.append(o)
        out = []

        def combine(i, chosen, cons, eqs):
            if i == len(opts):
                yield chosen, cons, eqs
                return
            fit = []
            for o in opts[i]:
                tag, I, flat, c, q = o
                if chosen and tag is not None and chosen[0][0] != tag:
                    continue
                if any(cons.get(a, b) != b for a, b in c.items()) or any(eqs.get(a, b) != b for a, b in q.items()):
                    continue
                fit.append(o)
            if any(o[0] is not None for o in fit):
                fit = [o for o in fit if o[0] is not None]
            for tag, I, flat, c, q in fit:
                c2 = dict(cons); c2.update(c)
                q2 = dict(eqs); q2.update(q)
                for r in combine(i + 1, chosen + [(tag, I, flat)], c2, q2):
                    yield r
        for chosen, cons, eqs in combine(0, [], {}, {}):
            self.count += 1
            tag, I = chosen[0][0], chosen[0][1]
            try:
                text = list(segs[0])
                for k, (_, _, flat) in enumerate(chosen):
                    if any(e[0] == 'rep' and e[1] not in ('up', 'list') for e in flat):
                        raise Unsupported('a loop backwards')
                    l = self.lines(flat)
                    if k == 0:
                        start = len(text)
                        own = l
                    text += l
                    if k == 0:
                        text.append(([('mark', 'next')], 0))
                    text += segs[k + 1]
                text += [([('mark', 'end')], 0)]
                out += self.run(tag, I, pre, text, post, own, cons, eqs)
            except Unsupported as e:
                self.undecided.append('%s: %s' % (tag, str(e)[:300]))
            except Bad as e:
                line = next((e_[3][1] for e_ in chosen[0][2] if e_[0] == 'emit'), 0)
                out.append(Behaviour(tag, None, None, {}, [], 'bad', {}, line, [str(e)]))
        return out

    # -- text to lines of tokens --------------------------------------------------
    def lines(self, flat):
        """Lines of text with terms in them: [([pieces], source line)]."""
        out = []
        cur = []
        at = 0
        for e in flat:
            if e[0] == 'emit':
                for x in e[2]:
                    if isinstance(x, str):
                        parts = x.split('\n')
                        for i, s in enumerate(parts):
                            if i:
                                out.append((cur, e[3][1])); cur = []
                            if s:
                                cur.append(s)
                    else:
                        cur.append(('hole', x[1], spelled(x[1], x[2], cur)))
            elif e[0] == 'call' and len(e[2]) and e[1] != 'FbleFreeVector':
                if any(v[0] in ('ref', 'agg') for v in e[2]) or any(mentions(v, {('sym', 'fout')}) for v in e[2]):
                    if cur:
                        cur.append(('call', e))
                    else:
                        out.append(([('call', e)], e[4][1] if e[4] else 0))
        if cur:
            out.append((cur, 0))
        return [(self.glue(l), n) for l, n in out]

    def glue(self, l):
        res = []
        for p in l:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        return res

    # -- running one instruction -----------------------------------------------------
    def run(self, tag, I, pre, text, post, own, cons, eqs):
        R = Render(I, {'profile': 'profile'})
        self.R = R
        alias = {'FP': 'x29', 'LR': 'x30', 'XZR': 'xzr', 'WZR': 'xzr', 'fp': 'x29', 'lr': 'x30'}
        data = {}
        section = 'text'
        label = None
        for src in (pre, text, post):
            section = 'text'; label = None
            for l, n in src:
                s = ''.join(x if isinstance(x, str) else '\x00' for x in l).strip()
                m = re.match(r'(\w+)\s+\.req\s+(\w+)$', s)
                if m:
                    alias[m.group(1)] = m.group(2)
                    continue
                if re.match(r'\.section\s+\.data|\.data\b', s):
                    section = 'data'; label = None; continue
                if re.match(r'\.text\b|\.section\s+\.text|\.section\b', s):
                    section = 'text'; label = None; continue
                lab = self.label(l)
                if lab is not None:
                    label = lab
                    data.setdefault(lab, [])
                    continue
                m = re.match(r'\.(xword|8byte|quad)\s+(.*)$', s)
                if m and label is not None:
                    data[label].append(self.operand(l, m.group(2), n))
                    continue
                m = re.match(r'\.string\s+(.*?);?$', s)
                if m and label is not None:
                    holes = [x for x in l if not isinstance(x, str)]
                    data[label].append(('string', terms.cstr(m.group(1)) if '\x00' not in m.group(1) and m.group(1)[:1] == '"' else holes[0][2] if holes and holes[0][0] == 'hole' else None))
        self.alias = alias; self.data = data
        # code
        code = []
        section = 'text'
        for l, n in text:
            s = ''.join(x if isinstance(x, str) else '\x00' for x in l).strip()
            if re.match(r'\.section\s+\.data|\.data\b', s):
                section = 'data'; continue
            if re.match(r'\.text\b|\.section\s+\.text', s):
                section = 'text'; continue
            if section == 'data':
                continue
            if s.startswith('.') and not s.endswith(':') and s.split()[0] not in SIZES and not re.match(r'\.(string|ascii|asciz|zero|skip|space)\b', s) or not s:
                continue
            code.append((l, n))
        where = {}
        for i, (l, n) in enumerate(code):
            lab = self.label(l)
            if lab is not None:
                where[lab] = i
        # the label of the instruction: the first in its own text
        self.me = next((self.label(l) for l, n in own if self.label(l) is not None), None)
        first = next((i for i, (l, n) in enumerate(code) if self.me is not None and self.label(l) == self.me), None)
        if first is None:
            raise Unsupported('no label on instructions')
        m = Machine()
        m.regs = {r: ('reg', r) for r in ['x%d' % i for i in range(31)]}
        m.regs['sp'] = ('reg', 'sp')
        for i, nme in enumerate(('heap', 'profile', 'function', 'args')):
            m.regs['x%d' % i] = ('sym', nme)
        m.mem = {}; m.conds = {}; m.cmp = None; m.ops = []; m.calls = 0; m.stack = []; m.sets = {}
        R.names = {}
        self.frame = None
        self.base = None
        self.notes = []
        res = []
        todo = [(0, m, 0, None)]
        steps = 0
        while todo:
            pc, m, last, frame = todo.pop()
            while True:
                steps += 1
                if steps > 2000:
                    raise Unsupported('too many steps')
                if pc >= len(code):
                    raise Unsupported('ran off the text')
                l, n = code[pc]
                last = n or last
                if l and isinstance(l[0], tuple) and l[0][0] == 'mark':
                    if l[0][1] == 'next':
                        res.append(self.done(R, m, frame, 'next', None, last)); break
                    raise Unsupported('ran off the text')
                if self.label(l) is not None:
                    if self.label(l) == self.me and frame is None:
                        frame = self.entered(R, m)
                    pc += 1
                    continue
                if isinstance(l[0], str) and l[0].strip().startswith('.'):
                    res.append(self.done(R, m, frame, 'data', None, n or last)); break        # data among the instructions
                if len(l) == 1 and not isinstance(l[0], str) and l[0][0] == 'call':
                    res.append(self.done(R, m, frame, self.search(R, m, l[0][1]), None, n)); break
                if any(not isinstance(x, str) and x[0] == 'call' for x in l):
                    raise Unsupported('text from a function not followed')
                r = self.step(R, m, l, n)
                if r is None:
                    pc += 1
                    continue
                if r[0] == 'ret':
                    self.restored(R, m, n)
                    res.append(self.done(R, m, None, 'return', m.regs['x0'], last)); break
                # a jump, perhaps conditional
                kind, target, atom = r
                if atom is not None:
                    other = m.copy()
                    known = m.conds.get(atom)
                    tkn, nt = True, True
                    if known is not None:
                        tkn = known == kind
                        nt = not tkn
                    if nt:
                        other.conds[atom] = not kind
                        self.imply(other, atom, not kind)
                        todo.append((pc + 1, other, last, frame))
                    if not tkn:
                        break
                    m.conds[atom] = kind
                    self.imply(m, atom, kind)
                if target in where:
                    pc = where[target]
                    continue
                j = self.jump(R, target)
                if j is None:
                    raise Unsupported('jump to %s' % (target,))
                res.append(self.done(R, m, frame, 'jump ' + j, None, last)); break
        out = []
        optag = optag_of(self.tu, cons, eqs)
        seen = set()
        for end, conds, ops, sets, line, notes in res:
            cs = {norm(R.cond(a)): b for a, b in conds.items() if '$' in R.cond(a)}
            prof = conds.get(('nz', ('sym', 'profile')))
            if end.startswith('jump ') and tag == 'FBLE_UNION_SELECT_INSTR':
                end = select(end, cs)
            out.append(Behaviour(tag, prof, optag, cs, ops, end, {norm(R(k)): norm(R(x)) for k, x in sets.items()}, line, notes + self.notes))
        return out

    def imply(self, m, atom, val):
        if atom[0] == 'eq' and val:
            for t, k in ((atom[1], atom[2]), (atom[2], atom[1])):
                if k[0] == 'int':
                    m.conds[('nz', t)] = k[1] != 0

    def label(self, l):
        """The label a line defines."""
        if not l or isinstance(l[-1], tuple) or not l[-1].rstrip().endswith(':'):
            return None
        s = [x if isinstance(x, str) else x[:1] + (x[2],) if x[0] == 'hole' else None for x in l]
        if None in s or isinstance(s[0], str) and re.match(r'\s*\.\w+\s', s[0]):
            return None
        if isinstance(s[-1], str):
            s[-1] = s[-1].rstrip()[:-1]
        if isinstance(s[0], str):
            s[0] = s[0].strip() if len(s) == 1 else s[0].lstrip()
        return tuple(x for x in s if x != '')

    def operand(self, l, s, n):
        """The operand s of line l, whose holes are NULs."""
        # holes before it
        whole = ''.join(x if isinstance(x, str) else '\x00' for x in l)
        i = whole.rindex(s)
        k = whole[:i].count('\x00')
        holes = [x for x in l if not isinstance(x, str)][k:]
        s = s.strip()
        return self.value(s, holes)

    def value(self, s, holes):
        t = s.lstrip('#')
        m = re.match(r'-?(0[xX][0-9a-fA-F]+|\d+)$', t)
        if m:
            return ('int', int(t, 0))
        if t == '\x00':
            return holes[0][2]
        m = re.match(r'\x00\s*\*\s*(\d+)$', t)
        if m:
            return mul(('int', int(m.group(1))), holes[0][2])
        # a label
        out = []
        hs = list(holes)
        for p in re.split(r'(\x00)', t):
            if p == '\x00':
                out.append(('hole', hs.pop(0)[2]))
            elif p:
                out.append(p)
        return ('label', tuple(out))

    def jump(self, R, target):
        """What stands where the label of this instruction has its number."""
        me = self.me
        if len(me) != len(target):
            return None
        diff = [(a, b) for a, b in zip(me, target) if a != b]
        if len(diff) != 1 or not (isinstance(diff[0][0], tuple) and isinstance(diff[0][1], tuple)):
            return None
        if R(diff[0][0][1]) != '*':
            return None
        return norm(R(diff[0][1][1]))

    def reg(self, s):
        s = self.alias.get(s, s)
        s = s.lower()
        if s[:1] == 'w' and s[1:].isdigit():
            s = 'x' + s[1:]
        if s == 'sp':
            return 'sp'
        if s == 'xzr' or s == 'wzr':
            return 'xzr'
        if re.match(r'x\d+$', s):
            return s
        raise Unsupported('register ' + s)

    def get(self, m, s):
        r = self.reg(s)
        if r == 'xzr':
            return ZERO
        return m.regs[r]

    def put(self, m, s, v):
        r = self.reg(s)
        if r != 'xzr':
            m.regs[r] = v

    def addr(self, m, s, holes):
        """[reg, #off] with write-back; the term of the address."""
        mm = re.match(r'\[\s*([\w\x00]+)\s*(?:,\s*(#?-?[\w\x00]+)\s*)?\](!)?\s*(?:,\s*(#?-?[\w\x00]+))?$', s)
        if not mm:
            raise Unsupported('address ' + repr(s))
        hs = list(holes)
        r = mm.group(1)
        sel = None
        if r == '\x00':
            h = hs.pop(0)[2]
            if h[0] == 'tab' and all(x[0] == 'str' for x in h[1]):
                base = ('tab', tuple(self.get(m, x[1]) for x in h[1]), h[2])
            else:
                raise Unsupported('register by number')
        else:
            base = self.get(m, r)
        off = ZERO
        if mm.group(2):
            o = mm.group(2)
            neg = o.startswith('#-') or o.startswith('-')
            o2 = o.replace('#', '').lstrip('-')
            off = hs.pop(0)[2] if o2 == '\x00' else ('int', int(o2, 0))
            if neg:
                off = mul(('int', -1), off)
        post = None
        if mm.group(4):
            o = mm.group(4).replace('#', '')
            neg = o.startswith('-')
            post = hs.pop(0)[2] if o.lstrip('-') == '\x00' else ('int', int(o, 0))
            if neg and post[0] != 'int':
                post = mul(('int', -1), post)
        return r, base, off, bool(mm.group(3)), post

    def load(self, m, base, off):
        if base[0] == 'tab':
            idx = self.div8(off)
            return ('ld', base, (('i', idx),))
        a = add(base, off)
        if a in m.mem:
            return m.mem[a]
        if self.frame is not None and base == self.frame['locals']:
            return ('text', 'local(%s)' % norm(self.R(self.div8(off))))
        b, o = self.split(a)
        if b == ('sym', 'function'):
            if o[0] != 'int':
                raise Unsupported('field of a function')
            f = self.fieldat('FbleFunction', o[1])
            return ('ld', b, (('f', f),))
        if b[0] == 'label':
            nm = self.text(b)
            d = self.data.get(b[1])
            if d is None:
                return ('gl', nm)
        return ('ld', b, (('i', self.div8(o)),))

    def fieldat(self, rec, off):
        r = next((r for n, r in self.rec.items() if n == rec), None)
        if r is None:
            raise Unsupported('no record ' + rec)
        for name, o in self.layout(r):
            if o == off:
                return name
        raise Bad('no field of %s at offset %d' % (rec, off))

    def layout(self, r):
        return [(n, o) for n, o in layout_of(self.ev, r)]

    def div8(self, t):
        if t[0] == 'int':
            if t[1] % 8:
                raise Bad('offset %d is not that of a word' % t[1])
            return ('int', t[1] // 8)
        if t[0] == 'lin':
            if t[1] % 8 or any(c % 8 for x, c in t[2]):
                raise Bad('offset is not that of a word')
            r = ('int', t[1] // 8)
            for x, c in t[2]:
                r = add(r, mul(('int', c // 8), x))
            return r
        raise Bad('offset %s is not that of a word' % self.R(t))

    def split(self, a):
        """Base and offset of an address."""
        if a[0] == 'lin':
            for x, c in a[2]:
                if c == 1 and x[0] in ('reg', 'label', 'sym', 'res'):
                    return x, add(a, x, -1)
        return a, ZERO

    def text(self, lab):
        return ''.join(x if isinstance(x, str) else '\x00' for x in lab[1])

    def step(self, R, m, l, n):
        s = ''.join(x if isinstance(x, str) else '\x00' for x in l).strip()
        holes = [x for x in l if not isinstance(x, str)]
        s = s.split('//')[0].rstrip().rstrip(';')
        mm = re.match(r'([\w.]+)\s*(.*)$', s, re.S)
        if not mm:
            raise Unsupported('text ' + repr(s))
        op, rest = mm.group(1).lower(), mm.group(2)
        args = split_args(rest)

        def holesof(i):
            k = sum(a.count('\x00') for a in args[:i])
            return holes[k:k + args[i].count('\x00')]

        def val(i):
            a = args[i].strip()
            if a.startswith('#') or a.startswith('\x00') or re.match(r'-?\d', a) or a.startswith('='):
                return self.value(a.lstrip('='), holesof(i))
            return self.get(m, a)

        if op == 'mov' or op == 'ldr' and args[1].strip().startswith('='):
            self.put(m, args[0].strip(), val(1)); return None
        if op in ('add', 'sub'):
            if args[2].strip().startswith(':lo12:'):
                v = self.value(args[2].strip()[6:], holesof(2))
                b = self.get(m, args[1].strip())
                if b != ('page', v):
                    raise Bad('low part of %s added to something else' % self.text(v))
                self.put(m, args[0].strip(), v); return None
            v = add(self.get(m, args[1].strip()), val(2), 1 if op == 'add' else -1)
            if self.reg(args[0].strip()) == 'sp':
                self.moved(m, v, n)
            self.put(m, args[0].strip(), v); return None
        if op == 'adrp':
            self.put(m, args[0].strip(), ('page', self.value(args[1].strip(), holesof(1)))); return None
        if op in ('adr',):
            self.put(m, args[0].strip(), self.value(args[1].strip(), holesof(1))); return None
        if op in ('ldr', 'str', 'ldp', 'stp'):
            k = 2 if op[2] == 'p' else 1
            r, base, off, wb, post = self.addr(m, ','.join(args[k:]).strip(), [h for i in range(k, len(args)) for h in holesof(i)])
            if op[0] == 'l':
                for i in range(k):
                    v = self.load(m, base, add(off, ('int', 8 * i)))
                    self.put(m, args[i].strip(), v)
            else:
                if wb:
                    nb = add(base, off)
                    if self.reg(r) == 'sp':
                        self.moved(m, nb, n)
                for i in range(k):
                    self.store(R, m, base, add(off, ('int', 8 * i)), self.get(m, args[i].strip()), n)
            if wb:
                self.put(m, r, add(base, off))
            elif post is not None:
                nb = add(base, post)
                if self.reg(r) == 'sp':
                    self.moved(m, nb, n)
                self.put(m, r, nb)
            return None
        if op == 'cmp':
            m.cmp = (self.get(m, args[0].strip()), val(1)); return None
        if op in ('cbz', 'cbnz'):
            return (op == 'cbnz', self.target(args[1], holesof(1)), ('nz', self.get(m, args[0].strip())))
        if op in ('b.eq', 'beq', 'b.ne', 'bne'):
            if m.cmp is None:
                raise Bad('branch without comparison')
            return (op in ('b.eq', 'beq'), self.target(args[0], holesof(0)), ('eq', m.cmp[0], m.cmp[1]))
        if op == 'b':
            return (True, self.target(args[0], holesof(0)), None)
        if op == 'bl':
            self.call(R, m, self.target(args[0], holesof(0)), n); return None
        if op == 'ret':
            return ('ret',)
        if op == 'nop':
            return None
        raise Unsupported('instruction ' + s.replace('\x00', '?'))

    def target(self, s, holes):
        v = self.value(s.strip(), holes)
        if v[0] == 'label':
            return v[1]
        return ('%s' % s.strip(), )

    def moved(self, m, v, n):
        """The stack pointer moves to v."""
        m.stack.append((v, n))

    def store(self, R, m, base, off, v, n):
        if base[0] == 'tab':
            raise Unsupported('store by number of register')
        a = add(base, off)
        if self.frame is not None and base == self.frame.get('locals'):
            m.sets[self.div8(off)] = v
            return
        m.mem[a] = v

    def area(self, m, p, old):
        """What is stored from address p on, by index."""
        cells = []
        for a, v in m.mem.items():
            d = add(a, p, -1)
            if a in old:
                continue
            try:
                if unknowns(d) & {('reg', 'sp')} or any(x[0] == 'reg' for x in unknowns(d)):
                    continue
                cells.append((((('i', self.div8(d)),)), v))
            except Bad:
                continue
        return cells

    def call(self, R, m, target, n):
        name = ''.join(x if isinstance(x, str) else '\x00' for x in target)
        if name == 'fprintf':
            args = [m.regs['x%d' % i] for i in range(8)]
            m.ops.append(self.report(R, m, args))
            self.after(m, ('res', m.calls, 'fprintf'))
            return
        p = self.protos.get(name) or self.tu.protos.get(name)
        if p is None or p.variadic:
            raise Unsupported('call of %s' % name)
        k = len(p.params)
        if m.regs['sp'] != ('reg', 'sp'):
            self.aligned(m, n)
        vals = []
        arrays = []
        for i in range(k):
            v = m.regs.get('x%d' % i)
            if v[0] == 'gone':
                raise Bad('argument %d of %s is what a call left in a register' % (i + 1, name))
            if v[0] == 'label' and v[1] in self.data:
                v = ('data', v[1])
            elif self.isstack(v):
                arrays.append(len(vals))
                v = ('arr', tuple(sorted(self.livecells(m, v, n), key=repr)))
            vals.append(v)
        res = ('res', m.calls, name)
        text = self.optext(R, name, vals)
        m.ops.append(text)
        self.after(m, res)

    def isstack(self, v):
        return ('reg', 'sp') in unknowns(v) if v[0] in ('lin', 'reg') else v == ('reg', 'sp')

    def livecells(self, m, p, n):
        old = self.frame['mem'] if self.frame else ()
        cells = self.area(m, p, old)
        top = self.frame['sp'] if self.frame else None
        if top is None:
            return cells
        size = add(top, p, -1)
        # room for every element
        for (path), v in cells:
            idx = path[0][1]
            ns = eachs(v, self.R.I) | {x[1] for x in unknowns(idx) if x[0] == 'each' and x != self.R.I}
            if len(ns) == 1:
                cnt = next(iter(ns))
                for k in range(0, 8):
                    env = {}
                    base = unknowns(cnt) | unknowns(size)
                    for b in base:
                        env[b] = k
                    need = value(mul(('int', 8), cnt), env)
                    if value(size, env) < need:
                        raise Bad('room for %d bytes where %d elements are stored' % (value(size, env), k))
        return cells

    def aligned(self, m, n):
        d = add(m.regs['sp'], ('reg', 'sp'), -1)
        us = sorted(unknowns(d), key=repr)
        for k in range(0, 6):
            env = {u: k for u in us}
            if value(d, env) % 16:
                raise Bad('stack pointer is not a multiple of 16 at a call')

    def after(self, m, res):
        for i in range(19):
            m.regs['x%d' % i] = ('gone', i)
        m.regs['x30'] = ('gone', 30)
        m.regs['x0'] = res
        m.calls += 1
        m.cmp = None

    def optext(self, R, name, vals):
        if name == 'FbleNewFuncValue':
            vals[1] = ('text', self.code(R, vals[1]))
            return 'newfunc(%s)' % ', '.join(norm(R(v)) for v in vals)
        for i, v in enumerate(vals):
            if v[0] == 'data':
                d = self.data[v[1]]
                if len(d) == 1:
                    ns = eachs(d[0], R.I)
                    vals[i] = ('text', '[%s]*%s' % (R(d[0]), R(next(iter(ns))) if len(ns) == 1 else '1'))
                else:
                    vals[i] = ('text', '[%s]' % ','.join(R(x) for x in d))
        return '%s(%s)' % (name, ', '.join(norm(R(v)) for v in vals))

    def code(self, R, v):
        if v[0] != 'data':
            raise Unsupported('executable')
        d = self.data[v[1]]
        r = next((r for n, r in self.rec.items() if n == 'FbleExecutable'), None)
        order = [n for n, o in sorted(self.layout(r), key=lambda x: x[1])]
        f = dict(zip(order, d))
        a, s, run = f.get('num_args'), f.get('num_statics'), f.get('run')
        if a is None or s is None or run is None or run[0] != 'label':
            raise Unsupported('executable')
        ids = [R(x[1]) for x in run[1] if isinstance(x, tuple) and x[1][0] != 'out']
        want = 'I.code'
        if (R(a), R(s)) == (want + '.executable.num_args', want + '.executable.num_statics') and ids == [want + '.profile_block_id']:
            return want
        return 'executable(%s, %s, %s)' % (R(a), R(s), ids)

    def strof(self, lab):
        if lab[0] != 'label':
            return None
        d = self.data.get(lab[1])
        if d and d[0][0] == 'string':
            return d[0][1]
        return None

    def report(self, R, m, args):
        if R(args[0]) != 'stderr':
            raise Unsupported('output to %s' % R(args[0]))
        fmt = self.strof(args[1])
        if not isinstance(fmt, str):
            raise Unsupported('format')
        pieces = re.findall(r'%[a-z]+|[^%]+', fmt)
        i = 2
        s = ''
        vals = []
        for p in pieces:
            if p.startswith('%'):
                v = args[i]; i += 1
                t = self.strof(v)
                if v[0] == 'label' and isinstance(t, str):
                    s += t
                elif v[0] == 'label':
                    o = [x[1] for x in v[1] if isinstance(x, tuple)]
                    vals.append(R(o[0][2][0]) if o and o[0][0] == 'out' and o[0][2] else '?'); s += '\x00'
                else:
                    vals.append(R(v)); s += '\x00'
            else:
                s += p
        mm = re.match(r'^\x00:\x00:\x00: error: ([^\x00]*)\n$', s)
        if not mm:
            return 'print(%r %s)' % (s, vals)
        srcname, l, c = vals
        base = l[:-5] if l.endswith('.line') else None
        loc = base if base and c == base + '.col' and base + '.source' in srcname else '%s:%s:%s' % (srcname, l, c)
        return 'report(%s, %s)' % (mm.group(1), loc)

    # -- what must hold around instructions --------------------------------------------
    def entered(self, R, m):
        """At the label of the instruction: what the registers hold."""
        f = {'sp': m.regs['sp'], 'mem': set(m.mem), 'regs': {r: m.regs[r] for r in SAVED if r != 'x30'}}
        f['locals'] = None
        for r in SAVED:
            v = m.regs[r]
            if r != 'x29' and self.isstack(v) and v != f['sp']:
                f['locals'] = v
                R.names[v] = 'locals'
        for r in SAVED:
            v = m.regs[r]
            if v[0] == 'ld' and v[1] == ('sym', 'function'):
                R.names[v] = {'statics': 's', 'profile_block_id': 'block'}.get(v[2][0][1], R(v))
        self.frame = f
        if f['locals'] is not None:
            d = add(('reg', 'sp'), f['locals'], -1)
            cnt = [u for u in unknowns(d) if R(u).endswith('num_locals')]
            if len(unknowns(d)) == 1 and cnt:
                for k in range(0, 8):
                    if value(d, {cnt[0]: k}) < 8 * k:
                        self.notes.append('room for locals is %d bytes for %d of them' % (value(d, {cnt[0]: k}), k))
                        break
        # what was saved lies outside the room for locals and below
        for a, v in m.mem.items():
            d = add(a, f['sp'], -1)
            if d[0] == 'int' and d[1] < 0:
                self.notes.append('a register is saved below the stack pointer')
            if f['locals'] is not None:
                d = add(a, f['locals'], -1)
                if d[0] == 'int' and d[1] >= 0:
                    self.notes.append('a register is saved where the locals are')
        return f

    def done(self, R, m, frame, end, v, line):
        notes = []
        if frame is not None:
            if m.regs['sp'] != frame['sp']:
                notes.append('the stack pointer is not put back')
            for r, x in frame['regs'].items():
                if m.regs[r] != x:
                    notes.append('register %s is changed' % r)
        if end == 'return':
            end = 'return ' + norm(R(v))
        return (end, m.conds, m.ops, m.sets, line, notes)

    def restored(self, R, m, n):
        if m.regs['sp'] != ('reg', 'sp'):
            self.notes.append('the stack pointer is not restored on return')
        for r in SAVED:
            if m.regs[r] != ('reg', r):
                self.notes.append('register %s is not restored on return' % r)

    def search(self, R, m, e):
        """A table of targets searched by the union's tag."""
        leaves = {}

        def go(v, pre):
            if v[0] in ('ref', 'agg'):
                for p, x in v[1]:
                    leaves[R.path(p).strip('.')] = R(x)
        for v in e[2]:
            go(v, '')
        have = set(leaves.values())
        x0 = R(m.regs['x0'])
        if x0 != '$FbleUnionValueTag':
            return 'search by %s' % x0
        if not {'I.targets.xs', 'I.targets.size', 'I.default_'} <= have:
            raise Unsupported('search table')
        for k, want in (('lo', '0'), ('hi', 'I.num_tags-1'), ('targets', 'I.targets.xs'), ('num_targets', 'I.targets.size'), ('default_', 'I.default_')):
            if k in leaves and leaves[k] != want:
                return 'search with %s = %s' % (k, leaves[k])
        return 'select'


def split_args(s):
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch == '[':
            depth += 1
        elif ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def layout_of(ev, rec):
    lay = ev.layout(rec)
    if not lay:
        raise Unsupported('layout of ' + rec.name)
    return sorted(lay[0].items(), key=lambda x: x[1])


# -- tables searched by tag -----------------------------------------------------------
def search_rule(tu, ev0, name):
    """The function that emits a search for x0 in a table: each way through it
    either jumps to the one target left, or splits the table in two."""
    out = []
    ev = terms.Eval(tu)
    f = tu.functions[name]
    R = Render(('none',), {p[0]: p[0] for p in f.params})
    bad = []
    n = 0

    def line_of(e):
        s = ''
        hs = []
        for x in e[2]:
            if isinstance(x, str):
                s += x
            else:
                s += '\x00'; hs.append(x[2])
        return s.strip(), hs
    fields = {'lo', 'hi', 'targets', 'num_targets', 'default_'}
    for kind, st, v in ev.function(name):
        evs = st.events
        if any(isinstance(e, Rep) for e in evs):
            raise Unsupported('a loop in the search')
        # the constant used for no target is no target
        if any(a[0] == 'eq' and ('int', -1) in a[1:] and b and re.search(r'target$|default_$', R(a[1] if a[2] == ('int', -1) else a[2])) for a, b in st.cons.items()):
            continue
        if any(re.search(r'target$|default_$', R(t)) and k == -1 for t, k in st.eqs.items()):
            continue
        n += 1
        texts = []
        recs = []
        for e in evs:
            if e[0] == 'emit':
                texts.append(line_of(e))
            elif e[0] == 'call' and e[1] == name:
                d = {}
                for a in e[2]:
                    if a[0] == 'ref':
                        for p, x in a[1]:
                            d[R.path(p).strip('.')] = x
                if set(d) & fields != fields:
                    raise Unsupported('fields of an interval')
                texts.append(('rec', d))
        line = evs[0][3][1] if evs and evs[0][0] == 'emit' else f.line
        cs = {}
        for a, b in st.cons.items():
            cs[R.cond(a)] = b
        first = texts[0] if texts else ('', [])
        pv = [p for p in f.params if 'Interval' in (p[1] or '') or p[0] == 'interval']
        if not pv:
            raise Unsupported('interval')
        q = ('sym', pv[0][0])

        def fld(nm):
            return ('ld', q, (('f', nm),))
        eq = dict(st.eqs)

        def sub(t):
            return subst(t, {a: ('int', k) for a, k in eq.items()})
        if re.match(r'b\s', first[0]):
            t = first[1][-1] if first[1] else None
            empty = st.cons.get(('nz', fld('num_targets'))) is False or eq.get(fld('num_targets')) == 0
            if empty:
                if t != fld('default_'):
                    bad.append((line, 'with no targets left the search goes to %s' % (R(t) if t else '?')))
            else:
                one = eq.get(fld('num_targets')) == 1
                same = any(a[0] == 'eq' and b and set(a[1:]) == {fld('lo'), fld('hi')} for a, b in st.cons.items())
                if not one or not same:
                    bad.append((line, 'the search ends while more than one tag is possible'))
                elif t is not None and not R(t).endswith('.target'):
                    bad.append((line, 'with one tag left the search goes to %s' % R(t)))
            continue
        # a split
        body = [t for t in texts]
        if len(body) < 3 or not re.match(r'cmp\s+x0', body[0][0]):
            raise Unsupported('shape of the search')
        T = body[0][1][-1]
        if not re.match(r'b\.eq\s', body[1][0]):
            raise Unsupported('shape of the search')
        tgt = body[1][1][-1]
        if T[0] != 'ld' or tgt[0] != 'ld' or T[1] != tgt[1] or T[2][:-1] != tgt[2][:-1] or T[2][-1] != ('f', 'tag') or tgt[2][-1] != ('f', 'target'):
            bad.append((line, 'the tag compared with is %s and the target %s' % (R(T), R(tgt))))
            continue
        idx = T[2][0][1] if T[2][0][0] == 'i' else ZERO

        def check(d, which):
            m = idx
            if which == 'low':
                want = {'lo': fld('lo'), 'hi': add(T, ('int', -1)), 'num_targets': m, 'default_': fld('default_')}
                base = ZERO
            else:
                want = {'lo': add(T, ('int', 1)), 'hi': fld('hi'), 'num_targets': add(add(fld('num_targets'), m, -1), ('int', -1)), 'default_': fld('default_')}
                base = add(m, ('int', 1))
            r = []
            for k, w in want.items():
                if sub(d[k]) != sub(w):
                    r.append('%s of the %s half is %s' % (k, which, R(d[k])))
            t = d['targets']
            got = None
            if t == fld('targets'):
                got = ZERO
            elif t[0] == 'padd' and t[1] == fld('targets'):
                got = t[2]
            elif t[0] == 'addr' and t[1] == fld('targets') and len(t[2]) == 1 and t[2][0][0] == 'i':
                got = t[2][0][1]
            if got is None:
                raise Unsupported('targets of a half')
            if sub(got) != sub(base):
                r.append('the %s half starts at target %s' % (which, R(got)))
            return r

        def isit(d):
            return 'high' if sub(d['lo']) != sub(fld('lo')) or not check(d, 'high') else 'low'
        rest = body[2:]
        losame = [b for a, b in st.cons.items() if a[0] == 'eq' and set(a[1:]) == {T, fld('lo')}]
        hisame = [b for a, b in st.cons.items() if a[0] == 'eq' and set(a[1:]) == {T, fld('hi')}]
        recd = [t for t in rest if t[0] == 'rec']
        cc = [t for t in rest if t[0] != 'rec' and re.match(r'b\.(cc|lo|lt)\s', t[0])]
        oth = [t for t in rest if t[0] != 'rec' and re.match(r'b\.|b\s', t[0]) and t not in cc]
        if oth:
            raise Unsupported('shape of the search')
        if not cc:
            if len(recd) != 1:
                raise Unsupported('shape of the search')
            if True in losame:
                for x in check(recd[0][1], 'high'):
                    bad.append((line, x))
            elif True in hisame:
                for x in check(recd[0][1], 'low'):
                    bad.append((line, x))
            else:
                bad.append((line, 'one half is not searched though tags are possible in both'))
            continue
        # below goes where the conditional branch says, else falls through
        i = rest.index(cc[0])
        after = rest[i + 1:]
        labs = [k for k, t in enumerate(after) if t[0] != 'rec' and t[0].endswith(':')]
        lo_target = None
        if labs:
            k = labs[0]
            lab = after[k]
            if (lab[0][:-1], lab[1]) != (re.sub(r'^b\.\w+\s+', '', cc[0][0]), cc[0][1]):
                bad.append((line, 'the branch to the low half goes elsewhere'))
                continue
            highs = [t[1] for t in after[:k] if t[0] == 'rec']
            lows = [t[1] for t in after[k:] if t[0] == 'rec']
            if len(lows) != 1:
                bad.append((line, 'the low half is not searched'))
                continue
            for x in check(lows[0], 'low'):
                bad.append((line, x))
        else:
            highs = [t[1] for t in after if t[0] == 'rec']
            tt = cc[0][1][-1]
            nolow = any(a == ('nz', sub(idx)) or a == ('nz', idx) for a, b in st.cons.items() if not b) or sub(idx) == ZERO or eq.get(idx) == 0
            if nolow:
                if tt != fld('default_'):
                    bad.append((line, 'with no targets below the search goes to %s' % R(tt)))
            else:
                one = eq.get(idx) == 1
                if not one or not R(tt).endswith('.target'):
                    bad.append((line, 'below the middle the search goes to %s' % R(tt)))
        if len(highs) != 1:
            bad.append((line, 'the high half is not searched'))
            continue
        for x in check(highs[0], 'high'):
            bad.append((line, x))
    return n, bad


# -- comparison ------------------------------------------------------------------------
UNCLEAR = re.compile(r'\?|undef:|unknown|#|\bout\b')


def clear(s):
    return not UNCLEAR.search(s)


def same_op(a, b, profiled):
    if a == b:
        return True
    if profiled is False and b.startswith('FbleCall(heap, profile, '):
        return a == b.replace('FbleCall(heap, profile, ', 'FbleCall(heap, 0, ', 1)
    return False


def judge(b, entries):
    """[(rule, message)] for one way through an instruction."""
    out = []
    for k, v in list(b.conds.items()):
        # a result equal to a particular value is not null, and the other way round
        m = re.match(r'(\$\w+)==WRONG$', k)
        if m and v:
            b.conds.setdefault(m.group(1), True)
        elif re.match(r'\$\w+$', k) and not v:
            b.conds.setdefault(k + '==WRONG', False)
    for n in b.notes:
        out.append(('frame', n))
    if b.end == 'bad':
        return out
    ops = list(b.ops)
    if any(not clear(o) for o in ops) or not clear(b.end):
        return None
    prof = [o for o in ops if o.startswith('FbleProfile')]
    if b.optag is not None:
        want = PROFILE[b.optag]
        if b.profiled is True and (not ops or ops[0] != want):
            out.append(('profile', '%s before an instruction is %s' % (b.optag, prof[0] if prof else 'not performed')))
        elif b.profiled is None and prof:
            out.append(('profile', '%s is performed without a test that profiling is on' % prof[0]))
        elif b.profiled is None:
            out.append(('profile', '%s is not performed' % b.optag))
        elif b.profiled is False and prof:
            out.append(('profile', '%s is performed when profiling is off' % prof[0]))
    elif prof:
        out.append(('profile', '%s is performed with no such request' % prof[0]))
    if len(prof) > 1:
        out.append(('profile', 'more than one profiling operation for one request'))
    rest = [o for o in ops if not o.startswith('FbleProfile')]
    fits = [e for e in entries if all(b.conds.get(k, v) == v for k, v in e[0].items())]
    for conds, want, end, sets in fits:
        given = ', '.join('%s%s' % ('' if v else 'not ', k) for k, v in sorted(conds.items()))
        when = ' when ' + given if given else ''
        undecided = [k for k in conds if k not in b.conds]
        stops = end == 'return 0'
        if len(rest) == len(want) and all(same_op(x, y, b.profiled) for x, y in zip(rest, want)) and (b.end == end):
            if end == 'next':
                for k, v in sets.items():
                    if b.sets is not None and b.sets.get(k) != v:
                        got = b.sets.get(k)
                        if got is not None and not clear(got):
                            return None
                        if got is None and any(not clear(x) for x in b.sets):
                            return None
                        out.append(('operands', 'the result %s is not stored in %s%s' % (v, k, '' if got is None else ' but %s' % got)))
                for k, v in b.sets.items() if b.sets else ():
                    if k not in sets and clear(k):
                        out.append(('operands', '%s is overwritten' % k))
            continue
        if stops:
            if undecided:
                out.append(('abort', 'goes on without testing %s' % ', '.join(undecided)))
            elif b.end != end:
                out.append(('abort', 'does not stop%s but goes on (%s)' % (when, b.end)))
            elif rest[:-1] == want[:-1] and rest and rest[-1].startswith('report'):
                out.append(('abort', 'stops with %s rather than %s%s' % (rest[-1], want[-1], when)))
            elif not any(o.startswith('report') for o in rest):
                out.append(('abort', 'stops without a report%s' % when))
            else:
                out.append(('operands', 'does %s rather than %s%s' % ('; '.join(rest) or 'nothing', '; '.join(want) or 'nothing', when)))
        else:
            if b.tag == 'FBLE_TAIL_CALL_INSTR':
                out.append(('tail', 'does %s and goes on with %s, rather than returning FbleTailCall' % ('; '.join(rest) or 'nothing', b.end)))
            if b.end == 'return 0':
                out.append(('abort', 'stops%s' % when))
            elif rest != want:
                out.append(('operands', 'does %s rather than %s%s' % ('; '.join(rest) or 'nothing', '; '.join(want) or 'nothing', when)))
            else:
                out.append(('operands', 'goes on with %s rather than %s%s' % (b.end, end, when)))
    return out


BACKENDS = [Interpreter, CBackend, AArch64Backend]


def compare(rules=None, undecided=None):
    """Findings of the comparison, as results of a lint."""
    res = []
    for cls in BACKENDS:
        B = cls()
        gen = fe.Gen()
        r = {'rel': B.file, 'func': B.name, 'status': 'ok', 'violations': [], 'stats': {'ways': 0, 'judged': 0, 'undecided': 0, 'instructions': 0}, 'samples': []}
        res.append(r)
        try:
            tu = fe.TU(B.file, gen)
            try:
                bs = B.behaviours(tu, gen)
            except (Unsupported, RecursionError) as e:
                r['status'] = 'undecided'; r['why'] = str(e)[:200]
                continue
            except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                r['status'] = 'undecided'; r['why'] = 'the analysis failed: %r' % e
                continue
            und = list(getattr(B, 'undecided', ()))
            tags = [n for n, v in tu.enums.get('FbleInstrTag', ())]
            got = {b.tag for b in bs}
            r['stats']['instructions'] = len(got)
            r['stats']['ways'] = len(bs)
            r['stats']['undecided'] = len(und)
            seen = set()

            def bad(rule, line, msg):
                if (rule, msg) in seen or rules is not None and rule not in rules:
                    return
                seen.add((rule, msg))
                r['violations'].append({'rule': rule, 'file': B.file, 'line': line, 'function': B.name, 'root': B.name, 'msg': msg, 'path': ''})
            for b in bs:
                e = spec(b.tag)
                if e is None:
                    r['stats']['undecided'] += 1
                    continue
                j = judge(b, e)
                if j is None:
                    r['stats']['undecided'] += 1
                    und.append('%s: %s -> %s' % (b.tag, b.ops, b.end))
                    continue
                r['stats']['judged'] += 1
                if len(r['samples']) < 10:
                    r['samples'].append(repr(b)[:200])
                for rule, msg in j:
                    bad(rule, b.line, '%s: %s' % (b.tag, msg))
            if got:
                # only kinds that nothing was left unclear about
                for t in tags:
                    if t not in got and spec(t) is not None and not any(t in u for u in und) and not und:
                        bad('missing', 0, '%s is not handled' % t)
                ops = {b.optag for b in bs if b.optag is not None}
                for t in PROFILE:
                    if t not in ops and not und and any(n == t for n, v in tu.enums.get('FbleProfileOpTag', ())):
                        bad('profile', 0, '%s is not handled' % t)
            if cls is AArch64Backend:
                for name, f in tu.functions.items():
                    if f.static and f.body is not None and any(n.k == 'CallExpr' and fe.callee(n) == name for n in fe.walk(f.body)) and \
                            any('Interval' in (p[1] or '') for p in f.params):
                        try:
                            n, bd = search_rule(tu, None, name)
                            r['stats']['ways'] += n
                            for line, msg in bd:
                                bad('operands', line, 'search for the branch: ' + msg)
                        except Unsupported as e:
                            r['stats']['undecided'] += 1
                            und.append(str(e))
            try:
                if cls is not Interpreter:
                    r['stats']['ways'] += collect_rule(tu, lambda f: [('FBLE_FUNC_VALUE_INSTR', 'code')] + (
                        [(t, 'loc') for t in sorted(ABORTS)] if cls is AArch64Backend and any('LocV' in (p[1] or '') for p in f.params) else []),
                        lambda f, msg: bad('operands' if 'code' in msg else 'abort', f.line, msg))
                    for kind, st, v in terms.Eval(tu).function(B.entry):
                        ev = terms.Eval(tu)
                        say = lambda line, msg: bad('module', line, 'description of a module: ' + msg)
                        r['stats']['ways'] += asm_module(B, st, ev, say) if cls is AArch64Backend else c_module(B, st, ev, gen, say)
                        break
            except (Unsupported, fe.Broken, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                r['stats']['undecided'] += 1
                und.append('module: ' + str(e)[:300])
            if und:
                r['samples'] += ['undecided: ' + u[:200] for u in und[:10]]
        finally:
            gen.close()
    return res


# -- the description of a module in generated code -----------------------------------
def flat_layout(ev, recname, pre=(), off=0):
    """[(offset, size, path, type)] of the plain fields of a record."""
    out = []
    rec = ev.tu.rec_by_name.get(recname)
    if rec is None:
        raise Unsupported('no record ' + recname)
    lay = ev.layout(rec)
    if not lay:
        raise Unsupported('layout of ' + recname)
    for f in rec.fields:
        ty = (f[1] or '').replace('const ', '').strip()
        o = off + lay[0][f[0]]
        sub = ev.tu.rec_by_name.get(ty)
        if sub is not None and sub.tag == 'struct':
            out += flat_layout(ev, ty, pre + (f[0],), o)
        else:
            out.append((o, ev.sizeof(ty), '.'.join(pre + (f[0],)), ty))
    return out


class ModuleData(object):
    """Walks the description of a module from its root."""

    def __init__(self, R, fields, string, calls, bad, deps, run):
        self.R = R; self.fields = fields; self.string = string; self.calls = calls; self.bad = bad
        self.deps = deps; self.run = run
        self.count = 0

    def num(self, d, line, path, want):
        self.count += 1
        got = d.get(path)
        if got is None:
            self.bad(line, '%s is not set' % path); return
        if got[0] == 'ref':
            self.bad(line, '%s is an address' % path); return
        g = norm(self.R(got))
        if not clear(g):
            return
        if g != want:
            self.bad(line, '%s is %s rather than %s' % (path, g, want))

    def ptr(self, d, line, path):
        self.count += 1
        got = d.get(path)
        if got is None:
            self.bad(line, '%s is not set' % path); return None
        if got[0] != 'ref':
            self.bad(line, '%s is not an address' % path); return None
        return got[1]

    def str_(self, d, line, path, want):
        p = self.ptr(d, line, path)
        if p is None:
            return
        s, sd, sl = self.string(p)
        if s is None:
            return
        g = self.R(s)
        if clear(g) and g != want:
            self.bad(line, '%s is the text %s rather than %s' % (path, g, want))
        self.num(sd, sl, 'refcount', '1')

    def loc(self, d, line, path, want):
        self.str_(d, line, path + '.source', want + '.source.str')
        self.num(d, line, path + '.line', want + '.line')
        self.num(d, line, path + '.col', want + '.col')

    def names(self, p, want):
        if p is None:
            return
        d, line = self.fields(p, 'FbleName', True)
        if d is None:
            return
        x = want + '.xs[*]'
        self.str_(d, line, 'name', x + '.name.str')
        self.num(d, line, 'space', x + '.space')
        self.loc(d, line, 'loc', x + '.loc')

    def module(self, root):
        d, line = self.fields(root, 'FbleGeneratedModule', False)
        if d is None:
            raise Unsupported('description of the module')
        p = self.ptr(d, line, 'path')
        if p is not None:
            pd, pl = self.fields(p, 'FbleModulePath', False)
            if pd is not None:
                self.num(pd, pl, 'refcount', '1')
                self.loc(pd, pl, 'loc', 'module.path.loc')
                self.num(pd, pl, 'path.size', 'module.path.path.size')
                self.names(self.ptr(pd, pl, 'path.xs'), 'module.path.path')
        self.num(d, line, 'deps.size', 'module.deps.size')
        p = self.ptr(d, line, 'deps.xs')
        if p is not None:
            for t, n in self.deps(p):
                self.count += 1
                a = self.calls.get(find_res(t)) if t is not None else None
                g = self.R(a[2][0]) if a is not None and a[2] else None
                if g is None or not clear(g):
                    continue
                if g != 'module.deps.xs[*]':
                    self.bad(n, 'deps.xs refers to the module at %s rather than module.deps.xs[*]' % g)
        e = self.ptr(d, line, 'executable')
        if e is not None:
            ed, el = self.fields(e, 'FbleExecutable', False)
            if ed is not None:
                self.num(ed, el, 'num_args', 'module.code.executable.num_args')
                self.num(ed, el, 'num_statics', 'module.code.executable.num_statics')
                r = self.ptr(ed, el, 'run')
                g = self.run(r) if r is not None else None
                if g is not None and clear(g) and g != 'module.code.profile_block_id':
                    self.bad(el, 'run is the function of block %s rather than module.code.profile_block_id' % g)
        self.num(d, line, 'profile_blocks.size', 'module.profile_blocks.size')
        self.names(self.ptr(d, line, 'profile_blocks.xs'), 'module.profile_blocks')


SIZES = {'.xword': 8, '.8byte': 8, '.quad': 8, '.dword': 8, '.word': 4, '.4byte': 4, '.long': 4, '.int': 4, '.hword': 2, '.2byte': 2, '.byte': 1, '.1byte': 1}


def asm_module(B, st, ev, bad):
    """The description of a module in generated assembly."""
    R = Render(('none',), {})
    B.R = R
    B.alias = {}
    events = expand([e for e in st.events])[-1][0]
    blocks = {}
    cur = None
    calls = {e[3]: e for e in events if e[0] == 'call'}
    roots = []
    for l, n in B.lines(events):
        s = ''.join(x if isinstance(x, str) else '\x00' for x in l).strip()
        lab = B.label(l)
        if lab is not None:
            cur = blocks.setdefault(lab, {'off': 0, 'items': [], 'line': n, 'string': None})
            if len(lab) == 1 and isinstance(lab[0], tuple) and R(lab[0][1]).startswith('$'):
                roots.append(lab)
            continue
        if len(l) == 1 and not isinstance(l[0], str) and l[0][0] == 'call':
            if cur is not None and cur['string'] is None:
                e = l[0][1]
                a = [v for v in e[2] if v != ('sym', 'fout')]
                if len(a) == 1:
                    cur['string'] = a[0]
                    cur['strat'] = cur['off']
            continue
        if re.match(r'\.(section|text|data|global|loc|file)\b', s):
            if not s.startswith('.global'):
                cur = cur if s.startswith('.loc') else None
            continue
        if cur is None:
            continue
        m = re.match(r'\.align\s+(\d+)$', s)
        if m:
            k = 1 << int(m.group(1))
            cur['off'] = (cur['off'] + k - 1) // k * k
            continue
        m = re.match(r'\.(zero|skip|space)\s+(\d+)$', s)
        if m:
            cur['off'] += int(m.group(2))
            continue
        m = re.match(r'(\.\w+)\s+(.*)$', s)
        if m and m.group(1) in SIZES:
            v = B.operand(l, m.group(2), n)
            cur['items'].append((cur['off'], SIZES[m.group(1)], v, n))
            cur['off'] += SIZES[m.group(1)]
            continue
        m = re.match(r'\.string\s', s)
        if m:
            hs = [x for x in l if not isinstance(x, str)]
            if cur['string'] is None and hs:
                cur['string'] = hs[0][2]; cur['strat'] = cur['off']
            continue
        cur = None
    rootlabs = []
    for lab in roots:
        e = calls.get(find_res(lab[0][1]))
        if e is not None and len(e[2]) == 1 and R(e[2][0]) == 'module.path':
            rootlabs.append(lab)
    if len(rootlabs) != 1:
        raise Unsupported('root of the description of a module')

    def fields(p, rec, elem):
        b = blocks.get(p)
        if b is None or not b['items']:
            return None, 0
        d = {}
        lay = {o: (sz, path) for o, sz, path, ty in flat_layout(ev, rec)}
        line = b['items'][0][3]
        for o, sz, v, n in b['items']:
            if o not in lay:
                bad(n, 'no field of %s is at offset %d' % (rec, o)); continue
            if lay[o][0] != sz:
                bad(n, '%s of %s has %d bytes, not %d' % (lay[o][1], rec, lay[o][0], sz)); continue
            d[lay[o][1]] = ('ref', v[1]) if v[0] == 'label' else v
        return d, line

    def string(p):
        b = blocks.get(p)
        if b is None or b['string'] is None:
            return None, {}, 0
        d, line = fields(p, 'FbleString', False) if b['items'] else ({}, 0)
        want = next((o for o, sz, path, ty in flat_layout(ev, 'FbleString') if path == 'str'), None)
        if want is not None and b.get('strat') != want:
            bad(line, 'the text of a string is at offset %s' % b.get('strat'))
        s = b['string']
        return s, d, line

    def deps(p):
        b = blocks.get(p)
        out = []
        for o, sz, v, n in b['items'] if b else ():
            if o or sz != 8:
                bad(n, 'an entry of deps.xs has %d bytes at offset %d' % (sz, o))
            if v[0] == 'label' and len(v[1]) == 1 and isinstance(v[1][0], tuple):
                out.append((v[1][0][1], n))
            elif v[0] != 'label':
                out.append((v, n))
        return out

    def run(lab):
        ids = [R(x[1]) for x in lab if isinstance(x, tuple) and x[1][0] != 'out']
        return ids[0] if len(ids) == 1 else None
    M = ModuleData(R, fields, string, calls, bad, deps, run)
    M.module(rootlabs[0])
    return M.count


def find_res(t):
    if isinstance(t, tuple):
        if t and t[0] == 'res':
            return t
        for x in t:
            r = find_res(x)
            if r is not None:
                return r
    return None


def c_module(B, st, ev, gen, bad):
    """The description of a module in generated C."""
    R = Render(('none',), {})
    H = Holes()
    hits = find_instr(st.events)
    top, ti, block = hits[0][0][0]
    pre = expand(top[:ti])[-1][0]
    post = expand(top[ti + 1:])[-1][0]
    calls = {e[3]: e for e in pre + post if e[0] == 'call'}
    a, _ = B.text(H, pre, {})
    e, _ = B.text(H, post, {})
    known = set(re.findall(r'\b(\w+)\s*(?:\[[^\]]*\])?\s*=\s*\{', e))
    protos = ''.join('static FbleValue* %s(FbleValueHeap* heap, FbleProfileThread* profile, FbleFunction* function, FbleValue** args);\n' % r
                     for r in sorted(set(re.findall(r'&(\w+)', e))) if r not in known and re.match(r'S\d+_', r) and r not in a)
    enums = ''.join('H%d = %d,' % (k, 1000 + k) for k in range(len(H.terms)))
    path = os.path.join(gen.dir, 'tmpl_module.c')
    with open(path, 'w') as f:
        f.write('#include <stddef.h>\n#include <stdio.h>\nenum { %s };\n' % enums + a + protos + e)
    t = fe.TU(path, gen)
    v = terms.Eval(t)
    for k, term in enumerate(H.terms):
        v.holes['H%d' % k] = term
    line = next((x[3][1] for x in post if x[0] == 'emit'), 0)

    def agg(name):
        g = t.globals.get(name)
        if g is None or not g.c:
            return None
        fr = terms.Frame(None, 0); fr.vars = {}
        for s2, val in v.init(g.c[-1], terms.State(), fr, g.ty):
            return val
        return None

    def ref(x):
        if x[0] == 'addr' and x[1][0] == 'gl':
            return ('ref', x[1][1])
        if x[0] == 'fn':
            return ('ref', x[1])
        if x[0] == 'gl':
            return ('ref', x[1])
        return x

    def fields(p, rec, elem):
        val = agg(p)
        if val is None or val[0] != 'agg':
            return None, line
        d = {}
        for pt, x in val[1]:
            if elem:
                if not pt or pt[0] != ('i', ZERO):
                    continue
                pt = pt[1:]
            d['.'.join(s[1].split('.')[-1] for s in pt if s[0] == 'f')] = ref(x)
        return d, line

    def string(p):
        d, _ = fields(p, 'FbleString', False)
        if d is None or 'str' not in d:
            return None, {}, line
        s = d['str']
        if s[0] == 'str':
            m = re.match(r'S(\d+)$', s[1])
            return (H.terms[int(m.group(1))] if m else None), d, line
        return None, d, line
    root = None
    for name, g in t.globals.items():
        m = re.match(r'S(\d+)$', name)
        if m and g.c and 'FbleGeneratedModule' in (g.ty or ''):
            e_ = calls.get(find_res(H.terms[int(m.group(1))]))
            if e_ is not None and R(e_[2][0]) == 'module.path':
                root = name
    if root is None:
        raise Unsupported('root of the description of a module')

    def deps(p):
        val = agg(p)
        out = []
        if val is not None and val[0] == 'agg':
            for pt, x in val[1]:
                x = ref(x)
                m = re.match(r'S(\d+)$', x[1]) if x[0] == 'ref' and isinstance(x[1], str) else None
                out.append((H.terms[int(m.group(1))] if m else None, line))
        return out

    def run(name):
        m = re.match(r'S(\d+)_H(\d+)$', name) if isinstance(name, str) else None
        return R(H.terms[int(m.group(2))]) if m else None
    M = ModuleData(R, fields, string, calls, bad, deps, run)
    M.module(root)
    return M.count


def kept(tu, name, f, bad):
    """A function that gathers names leaves out only one it already has."""
    for kind, st, v in terms.Eval(tu).function(name):
        grown = any(e[0] == 'call' and e[1].startswith('FbleExtendVector') for e in st.events if not isinstance(e, Rep))
        if grown:
            continue
        same = [k for k, b in st.cons.items() if k[0] == 'nz' and k[1][0] == 'res' and k[1][2] == 'strcmp' and not b or
                k[0] == 'eq' and any(isinstance(x, tuple) and x and x[0] == 'res' and x[2] == 'strcmp' for x in k[1:]) and b]
        if not same and any(e[0] == 'call' and e[1] == 'strcmp' for e in st.events if not isinstance(e, Rep)):
            bad(f, 'a file that has not been collected before is left out')


def collect_rule(tu, tag_mentions, bad):
    """Functions that gather the code blocks of a module visit each block."""
    n = 0
    for name, f in sorted(tu.functions.items()):
        if f.body is None or not f.static or (f.file or '').startswith('/'):
            continue
        ptys = [(p[1] or '').replace(' ', '') for p in f.params]
        if len(ptys) == 2 and 'LocV*' in ptys and 'constchar*' in ptys:
            n += 1
            kept(tu, name, f, bad)
        if 'FbleCode*' not in ptys:
            continue
        if not any(x.k == 'CallExpr' and fe.callee(x) == name for x in fe.walk(f.body)):
            if 'FbleCodeV*' in ptys and not any(
                    x.k == 'CallExpr' and fe.callee(x) == name for q in tu.functions.values() if q.body is not None and not (q.file or '').startswith('/')
                    for l in fe.walk(q.body) if l.k in ('ForStmt', 'WhileStmt', 'DoStmt') for x in fe.walk(l)):
                loops = [x for x in fe.walk(f.body) if x.k in ('ForStmt', 'WhileStmt', 'DoStmt')]
                if len(loops) < 2:
                    n += 1
                    bad(f, 'the code of functions within the functions of a module is not collected')
            continue
        ev = terms.Eval(tu)
        res = ev.function(name)
        paths = []
        for kind, st, v in res:
            for e in st.events:
                if isinstance(e, Rep):
                    paths += [p for p in e.paths]
                    if e.dir not in ('up', 'down'):
                        raise Unsupported('instructions are not visited one by one')
        tags = {}
        for p in paths:
            I = instr_of(p.cons)
            tag = tag_of(tu, p, I) if I else None
            if tag is not None:
                tags.setdefault(tag, []).append((I, p))
        if not tags:
            raise Unsupported('instructions are not told apart')
        for tag, want in tag_mentions(f):
            n += 1
            ok = tag in tags
            for I, p in tags.get(tag, ()):
                R = Render(I, {})
                texts = []

                def go(evs):
                    for e in evs:
                        if isinstance(e, Rep):
                            for q in e.paths:
                                go(q.events)
                        elif e[0] == 'call':
                            if want == 'code' and e[1] != name:
                                continue
                            texts.append(' '.join(R(x) for x in e[2]))
                go(p.events)
                for (b, pt), x in p.mem.items():
                    if want != 'code':
                        texts.append(R(x))
                if not any(('I.code' if want == 'code' else 'I.loc.source') in x for x in texts):
                    ok = False
            if not ok:
                bad(f, 'the code of %s is not collected' % tag if want == 'code' else 'the file %s is reported in is not collected' % tag)
    return n
