"""Rules over the typed syntax tree of whole programs (no paths)."""
import ast, re
import fe, engine
from fe import walk, callee

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1,
          'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2}
SCANF = {'scanf': 0, 'fscanf': 1, 'sscanf': 1}
SIZE4 = {'int', 'unsigned int', 'unsigned', 'signed int', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool', '_Bool',
         'uint32_t', 'int32_t', 'uint8_t', 'int8_t', 'uint16_t', 'int16_t'}
SIZE8 = {'long', 'unsigned long', 'long long', 'unsigned long long', 'size_t', 'ssize_t', 'intptr_t', 'uintptr_t', 'int64_t', 'uint64_t', 'ptrdiff_t'}


def string(n):
    """Value of a string literal expression, or None."""
    while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr') or (n is not None and n.k == 'UnaryOperator' and n.op == '__extension__'):
        n = n.c[0]
    if n is None:
        return None
    if n.k == 'PredefinedExpr':
        n = n.c[0]
    if n.k != 'StringLiteral' or n.val is None:
        return None
    m = re.match(r'^(?:u8|[uUL])?"(.*)"$', n.val, re.S)
    if not m:
        return None
    return re.sub(r'\\([0-7]{1,3}|x[0-9a-fA-F]+|.)', lambda m: {'n': '\n', 't': '\t', '"': '"', '\\': '\\'}.get(m.group(1), m.group(1)), m.group(1))


def strings(n):
    """All literal values of an expression, or None if it has others."""
    while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr'):
        n = n.c[0]
    if n is not None and n.k == 'ConditionalOperator':
        a, b = strings(n.c[1]), strings(n.c[2])
        return a + b if a is not None and b is not None else None
    s = string(n)
    return None if s is None else [s]


def kind(T, ty):
    """Class of argument a type is passed as."""
    t = T.parse(ty)
    return tkind(t)


def tkind(t):
    if t[0] == 'ptr':
        x = t[1]
        if x[0] == 'int' and x[1] in ('char', 'signed char', 'unsigned char'):
            return 'str'
        if x[0] == 'void':
            return 'ptr:void'
        if x[0] == 'rec':
            return 'ptr:' + x[1]
        return 'ptr:' + repr(x)
    if t[0] == 'arr':
        return tkind(('ptr', t[1]))
    if t[0] == 'enum':
        return 'i4'
    if t[0] == 'int':
        return 'i4' if t[1] in SIZE4 else 'i8' if t[1] in SIZE8 else 'int:' + t[1]
    if t[0] == 'flt':
        return 'flt'
    if t[0] == 'rec':
        return 'rec:' + t[1]
    return t[0]


DIRECTIVE = re.compile(r'%(?P<flags>[-+ #0\']*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+|\*)?)?(?P<len>hh|h|ll|l|z|j|t|q|L)?(?P<conv>[a-zA-Z%])')


def printf_args(fmt):
    """Kinds of the arguments of a printf format; None if malformed."""
    out, i = [], 0
    while True:
        j = fmt.find('%', i)
        if j < 0:
            return out
        m = DIRECTIVE.match(fmt, j)
        if not m:
            return None
        i = m.end()
        c, ln = m.group('conv'), m.group('len')
        if c == '%':
            continue
        if m.group('width') == '*':
            out.append('i4')
        if m.group('prec') == '*':
            out.append('i4')
        if c in 'diuxXoc':
            if c == 'c' and ln:
                return None
            out.append('i8' if ln in ('l', 'll', 'z', 'j', 't', 'q') else 'i4')
        elif c in 'fFeEgGaA':
            out.append('flt')
        elif c == 's':
            out.append('str')
        elif c == 'p':
            out.append('ptr')
        else:
            return None


def scanf_args(fmt):
    out, i = [], 0
    for m in re.finditer(r'%(\*)?(\d+)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%\[])', fmt):
        if m.group(4) == '%' or m.group(1):
            continue
        out.append('ptr')
    return out


def fits(want, got, T=None):
    if want == got:
        return True
    if want == 'ptr':
        return got.startswith('ptr') or got == 'str'
    if got == 'ptr:void' and want.startswith('ptr'):
        return True
    if T is not None and want.startswith('ptr:') and got.startswith('ptr:'):
        # an object of a derived kind is where its base is
        rec = T.record(got[4:])
        if rec is not None and rec.fields and rec.fields[0][0] == '_base':
            b = T.parse(rec.fields[0][1])
            return b[0] == 'rec' and fits(want, 'ptr:' + b[1], T)
    return False


class Variadics(object):
    """What the variadic functions of the program do with their arguments."""

    def __init__(self, tus):
        self.fmt = {}       # name -> index of a printf format
        self.own = {}       # name -> (index of the format, {conversion: kind})
        self.count = {}     # name -> (index of the count, kind)
        self.va = {}
        self.broken = []
        for rel, t in tus.items():
            T = engine.Types(t)
            for f in t.functions.values():
                if not f.variadic or f.file != rel or not f.body:
                    continue
                self.define(f, t, T)

    def define(self, f, t, T):
        ids = {p[2]: i for i, p in enumerate(f.params)}
        for n in walk(f.body):
            if n.k == 'CallExpr' and callee(n) in ('vprintf', 'vfprintf', 'vsprintf', 'vsnprintf'):
                i = PRINTF[callee(n)]
                a = n.c[1 + i]
                while a is not None and a.k == 'ImplicitCastExpr':
                    a = a.c[0]
                if a is not None and a.k == 'DeclRefExpr' and a.ref in ids:
                    self.fmt[f.name] = ids[a.ref]
        if f.name in self.fmt:
            return
        # a switch over the conversions, here or in a helper that is given the list
        bodies = [f.body] + [g.body for g in t.functions.values() if g.body and g.file == f.file and any('va_list' in (p[3] or '') for p in g.params)]
        conv = {}
        for b in bodies:
            for n in walk(b):
                if n.k == 'SwitchStmt':
                    conv.update(self.cases(n, T))
        fi = [i for i, p in enumerate(f.params) if kind(T, p[1]) == 'str']
        if conv and fi:
            self.own[f.name] = (fi[-1], conv)
            return
        # as many arguments of one kind as a parameter says
        vs = {kind(T, n.ty) for n in walk(f.body) if n.k == 'VAArgExpr'}
        if len(vs) == 1 and f.params and kind(T, f.params[-1][1]) in ('i8', 'i4'):
            self.count[f.name] = (len(f.params) - 1, vs.pop())
            return
        self.broken.append(f.name)

    def cases(self, sw, T):
        out = {}

        def chars(n):
            r = []
            while n is not None and n.k == 'CaseStmt':
                for x in walk(n.c[0]):
                    if x.k == 'CharacterLiteral':
                        r.append(chr(int(x.val)))
                    elif x.k == 'IntegerLiteral':
                        r.append(chr(int(x.val)))
                n = n.c[-1]
            return r, n
        body = sw.c[-1]
        cur, kinds = [], []
        for s in (body.c if body is not None and body.k == 'CompoundStmt' else ()):
            if s is None:
                continue
            if s.k == 'CaseStmt':
                for c in cur:
                    out[c] = kinds
                cur, rest = chars(s)
                kinds = []
                s = rest
            elif s.k == 'DefaultStmt':
                for c in cur:
                    out[c] = kinds
                cur, kinds = [], []
                continue
            if s is not None:
                for x in walk(s):
                    if x.k == 'VAArgExpr':
                        kinds.append(kind(T, x.ty))
        for c in cur:
            out[c] = kinds
        return {c: k for c, k in out.items() if c == '%' or k}

    def wanted(self, name, fmt):
        """Kinds of the arguments for a format of a function with its own."""
        idx, conv = self.own[name]
        out, i = [], 0
        while True:
            j = fmt.find('%', i)
            if j < 0:
                return out
            c = fmt[j + 1:j + 2]
            if c == '%':
                i = j + 2
                continue
            if c not in conv:
                return None
            out.extend(conv[c])
            i = j + 2


def formats(tus):
    va = Variadics(tus)
    res = []
    for name in va.broken:
        raise fe.Broken('cannot tell what the variadic function %s does with its arguments' % name)
    for rel, t in sorted(tus.items()):
        T = engine.Types(t)
        for f in sorted(t.functions.values(), key=lambda f: f.name):
            if not f.body or not f.file or f.file.startswith('/') or (f.file != rel and f.name != 'yyparse'):
                continue
            r = dict(rel=rel, func=f.name, status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 0})
            params = {p[2] for p in f.params}

            def bad(n, rule, msg):
                r['violations'].append({'rule': rule, 'file': n.file or rel, 'line': n.line, 'function': f.name, 'root': f.name, 'msg': msg, 'path': ''})
            for n in walk(f.body):
                if n.k != 'CallExpr':
                    continue
                r['stats']['calls'] += 1
                name = callee(n)
                args = n.c[1:]
                if name in va.count:
                    i, k = va.count[name]
                    r['stats']['obligations'] += 1
                    c = args[i] if i < len(args) else None
                    while c is not None and c.k.endswith('CastExpr'):
                        c = c.c[0]
                    if c is None or c.k != 'IntegerLiteral':
                        bad(n, 'format-args', '%s is told a number of arguments that is not a constant' % name)
                        continue
                    have = args[i + 1:]
                    if len(have) != int(c.val):
                        bad(n, 'format-args', '%s is told %s arguments and given %d' % (name, c.val, len(have)))
                    for a in have:
                        if not fits(k, kind(T, a.ty), T):
                            bad(n, 'format-args', '%s is given an argument of type %s' % (name, a.ty))
                    continue
                if name in va.own:
                    i = va.own[name][0]
                    want = lambda s: va.wanted(name, s)
                elif name in va.fmt:
                    i, want = va.fmt[name], printf_args
                elif name in PRINTF:
                    i, want = PRINTF[name], printf_args
                elif name in SCANF:
                    i, want = SCANF[name], scanf_args
                else:
                    continue
                if i >= len(args):
                    continue
                r['stats']['obligations'] += 1
                a = args[i]
                fixed = len(t.protos[name].params) if name in t.protos else i + 1
                ss = strings(a)
                if ss is None:
                    x = a
                    while x is not None and x.k.endswith('CastExpr'):
                        x = x.c[0]
                    if name.startswith('v') and x is not None and x.k == 'DeclRefExpr' and x.ref in params:
                        continue
                    bad(n, 'format-literal', 'the format of %s is not a literal: text of a program would be taken for directives' % name)
                    continue
                if name.startswith('v'):
                    continue
                for s in ss:
                    w = want(s)
                    have = [kind(T, x.ty) for x in args[fixed:]]
                    if w is None:
                        bad(n, 'format-directive', '%s does not know a directive of "%s"' % (name, s.strip()))
                        continue
                    if len(w) != len(have):
                        bad(n, 'format-args', '"%s" names %d arguments, %d are given to %s' % (s.strip(), len(w), len(have), name))
                        continue
                    for j, (x, y) in enumerate(zip(w, have)):
                        if not fits(x, y, T):
                            bad(n, 'format-args', 'argument %d of "%s" is of type %s' % (j + 1, s.strip(), args[fixed + j].ty))
            if r['stats']['obligations'] or r['violations']:
                res.append(r)
    return res
