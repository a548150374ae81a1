"""What text of a program becomes in generated code.

Text that comes from the program - the contents of an FbleString, or the name
of the current directory - is followed to where it is written to the output.
It may get there only through a loop that says, for each of the 255
characters, what is written for it: either something that stands for that
character between quotes, or something made of letters, digits and
underscores.  The loop is evaluated once for every value of the character.
"""
import re
import fe
from fe import walk, callee

GENERATORS = ('lib/c.c', 'lib/aarch64.c')
CHARS = [c for c in range(1, 256)]
SIMPLE = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, 'e': 27}
CTYPE = {
    'isalnum': str.isalnum, 'isalpha': str.isalpha, 'isdigit': str.isdigit, 'isupper': str.isupper, 'islower': str.islower,
    'isspace': lambda s: s in ' \t\n\r\v\f', 'isprint': lambda s: 32 <= ord(s) < 127, 'isgraph': lambda s: 33 <= ord(s) < 127,
    'iscntrl': lambda s: ord(s) < 32 or ord(s) == 127, 'ispunct': lambda s: 33 <= ord(s) < 127 and not s.isalnum(),
    'isxdigit': lambda s: s in '0123456789abcdefABCDEF', 'isascii': lambda s: True, 'isblank': lambda s: s in ' \t',
}
BUILDERS = ('sprintf', 'snprintf', 'strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'getcwd', 'realpath', 'stpcpy', 'vsprintf', 'vsnprintf', 'memmove')
BIT = {'_ISalnum': 'isalnum', '_ISalpha': 'isalpha', '_ISdigit': 'isdigit', '_ISupper': 'isupper', '_ISlower': 'islower', '_ISspace': 'isspace', '_ISprint': 'isprint',
       '_ISgraph': 'isgraph', '_IScntrl': 'iscntrl', '_ISpunct': 'ispunct', '_ISxdigit': 'isxdigit', '_ISblank': 'isblank'}


def strip(n):
    while n is not None and (n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') or n.k == 'UnaryOperator' and n.op == '__extension__'):
        n = n.c[0]
    return n


def literal(n):
    n = strip(n)
    if n is not None and n.k == 'PredefinedExpr':
        n = n.c[0]
    if n is None or n.k != 'StringLiteral' or n.val is None:
        return None
    m = re.match(r'^"(.*)"$', n.val, re.S)
    return unescape(m.group(1)) if m else None


def unescape(t):
    """The characters a C literal stands for, or None."""
    out = []
    i = 0
    while i < len(t):
        c = t[i]; i += 1
        if c in '"\n':
            return None
        if c != '\\':
            out.append(c)
            continue
        m = re.compile(r'[0-7]{1,3}|x[0-9a-fA-F]+|.', re.S).match(t, i)
        if not m:
            return None
        i = m.end(); s = m.group(0)
        if s[0] in '01234567':
            out.append(chr(int(s, 8) & 255))
        elif s[0] == 'x' and len(s) > 1:
            out.append(chr(int(s[1:], 16) & 255))
        elif s in SIMPLE:
            out.append(chr(SIMPLE[s]))
        elif s in '"\\\'?':
            out.append(s)
        else:
            return None
    return ''.join(out)


def is_char(ty):
    return re.sub(r'\b(const|volatile)\b', '', ty or '').strip() in ('char', 'signed char', 'unsigned char')


def is_text(ty):
    t = re.sub(r'\b(const|volatile|restrict)\b', '', ty or '').strip()
    return bool(re.match(r'^(unsigned |signed )?char ?(\*|\[.*\])$', t))


class Stop(Exception):
    pass


class Loop(object):
    """One turn of a loop, for one character."""

    def __init__(self, an, f, tu, text, v):
        self.an = an; self.f = f; self.tu = tu; self.v = v if v < 128 else v - 256
        self.text = text            # variables that point into the text
        self.depth = 0; self.steps = 0

    def run(self, body, env, out):
        """-> [(kind, value, env, out)] where out is a tuple of (where, text)"""
        self.steps += 1
        if self.steps > 4000:
            raise Stop('long')
        n = body
        if n is None:
            return [('fall', None, env, out)]
        k = n.k
        if k == 'CompoundStmt':
            return self.seq(n.c, env, out)
        if k in ('NullStmt',):
            return [('fall', None, env, out)]
        if k == 'DeclStmt':
            for d in n.c:
                if d is not None and d.k == 'VarDecl' and d.c and d.c[-1] is not None:
                    t = literal(d.c[-1])
                    env = dict(env)
                    if t is not None and '[' in (d.ty or ''):
                        env[('s', d.id)] = t
                    else:
                        env[d.id], out = self.ev(d.c[-1], env, out)
            return [('fall', None, env, out)]
        if k == 'IfStmt':
            c, out = self.ev(n.c[0], env, out)
            r = []
            if c is None or c:
                r += self.run(n.c[1], dict(env), out)
            if c is None or not c:
                r += self.run(n.c[2], dict(env), out) if len(n.c) > 2 and n.c[2] is not None else [('fall', None, env, out)]
            return r
        if k == 'SwitchStmt':
            c, out = self.ev(n.c[0], env, out)
            return self.switch(n, c, env, out)
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
            return self.run(n.c[-1], env, out)
        if k == 'BreakStmt':
            return [('break', None, env, out)]
        if k == 'ContinueStmt':
            return [('continue', None, env, out)]
        if k == 'ReturnStmt':
            v = None
            if n.c and n.c[0] is not None:
                v, out = self.ev(n.c[0], env, out)
            return [('return', v, env, out)]
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'GotoStmt'):
            raise Stop('loop')
        v, out = self.ev(n, env, out)
        return [('fall', None, env, out)]

    def seq(self, stmts, env, out):
        cur = [(env, out)]; done = []
        for s in stmts:
            nxt = []
            for e, o in cur:
                for k, v, e2, o2 in self.run(s, e, o):
                    (nxt if k == 'fall' else done).append((e2, o2) if k == 'fall' else (k, v, e2, o2))
            cur = nxt
            if len(cur) + len(done) > 64:
                raise Stop('paths')
        return done + [('fall', None, e, o) for e, o in cur]

    def switch(self, n, c, env, out):
        body = n.c[-1]
        flat = []       # statements in order; None marks nothing
        starts = []

        def put(s):
            labels = []
            while s is not None and s.k in ('CaseStmt', 'DefaultStmt'):
                labels.append('default' if s.k == 'DefaultStmt' else self.ev(s.c[0], {}, ())[0])
                s = s.c[-1]
            for l in labels:
                starts.append((l, len(flat)))
            flat.append(s)
        for s in (body.c if body.k == 'CompoundStmt' else [body]):
            put(s)
        if c is None:
            goes = [i for l, i in starts] + ([] if any(l == 'default' for l, i in starts) else [len(flat)])
        else:
            hit = [i for l, i in starts if l == c] or [i for l, i in starts if l == 'default']
            goes = hit[:1] or [len(flat)]
        r = []
        for i in goes:
            for k, v, e, o in self.seq(flat[i:], dict(env), out):
                r.append(('fall' if k == 'break' else k, v, e, o))
        return r

    # expressions -> (value or None, out)
    def ev(self, n, env, out):
        self.steps += 1
        k = n.k
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n.val), out
        if k == 'ConstantExpr':
            return self.ev(n.c[0], env, out)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            v, out = self.ev(n.c[0], env, out)
            if isinstance(v, int):
                ty = re.sub(r'\bconst\b', '', n.ty or '').strip()
                if ty in ('unsigned char', 'uint8_t'):
                    v &= 255
                elif ty in ('char', 'signed char', 'int8_t'):
                    v = ((v & 255) ^ 128) - 128
                elif ty in ('unsigned int', 'uint32_t', 'unsigned'):
                    v &= 0xffffffff
                elif ty in ('size_t', 'unsigned long', 'uint64_t'):
                    v &= 0xffffffffffffffff
            return v, out
        if k == 'ParenExpr':
            return self.ev(n.c[0], env, out)
        if k == 'DeclRefExpr':
            if n.val == 'EnumConstantDecl':
                return self.tu.enum_val.get(n.name), out
            if n.ref in env:
                return env[n.ref], out
            if ('s', n.ref) in env:
                return env[('s', n.ref)], out
            return None, out
        if k == 'StringLiteral' or k == 'PredefinedExpr':
            return literal(n), out
        if k == 'UnaryOperator':
            if n.op == '*':
                if self.an.points(n.c[0], self.text) and is_char(n.ty):
                    return self.v, out
                v, out = self.ev(n.c[0], env, out)
                return None, out
            if n.op in ('++', '--', '&'):
                return None, out
            v, out = self.ev(n.c[0], env, out)
            if not isinstance(v, int):
                return None, out
            return {'!': lambda: int(not v), '-': lambda: -v, '~': lambda: ~v, '+': lambda: v, '__extension__': lambda: v}.get(n.op, lambda: None)(), out
        if k == 'ArraySubscriptExpr':
            if self.an.points(n.c[0], self.text) and is_char(n.ty):
                return self.v, out
            t, out = self.ev(n.c[0], env, out)
            i, out = self.ev(n.c[1], env, out)
            if isinstance(t, str) and isinstance(i, int) and 0 <= i <= len(t):
                return (ord(t[i]) if i < len(t) else 0), out
            return None, out
        if k == 'ConditionalOperator':
            c, out = self.ev(n.c[0], env, out)
            if c is None:
                a, o1 = self.ev(n.c[1], env, out)
                b, o2 = self.ev(n.c[2], env, out)
                if o1 != o2:
                    raise Stop('choice')
                return (a if a == b else None), o1
            return self.ev(n.c[1] if c else n.c[2], env, out)
        if k == 'BinaryOperator':
            return self.binary(n, env, out)
        if k == 'CompoundAssignOperator':
            v, out = self.ev(n.c[1], env, out)
            t = strip(n.c[0])
            if t.k == 'DeclRefExpr' and t.ref in env:
                env[t.ref] = None
            return None, out
        if k == 'CallExpr':
            return self.call(n, env, out)
        if k == 'StmtExpr':
            raise Stop('block')
        return None, out

    def binary(self, n, env, out):
        op = n.op
        if op == '=':
            v, out = self.ev(n.c[1], env, out)
            t = strip(n.c[0])
            if t.k == 'DeclRefExpr':
                env[t.ref] = v
                return v, out
            if is_char(t.ty):
                b = t.c[0] if t.k in ('ArraySubscriptExpr', 'UnaryOperator') and t.c else None
                if b is not None:
                    w = self.an.root(b)
                    if w is not None and v != 0:
                        out = out + ((('buf', w), chr(v & 255) if isinstance(v, int) else None),)
            return v, out
        a, out = self.ev(n.c[0], env, out)
        if op == '&&' and a is not None and not a:
            return 0, out
        if op == '||' and a is not None and a:
            return 1, out
        if op == ',':
            return self.ev(n.c[1], env, out)
        # isalnum and the like, expanded
        if op == '&' and n.c[1] is not None:
            r = self.ctype(n, env)
            if r is not None:
                return r, out
        b, out = self.ev(n.c[1], env, out)
        if op in ('&&', '||'):
            if isinstance(b, str):
                b = 1
            if a is None and (b is None or (op == '&&') == bool(b)):
                return None, out
            return int(bool(b)) if a is not None or (op == '&&') != bool(b) else None, out
        if not isinstance(a, int) or not isinstance(b, int):
            return None, out
        try:
            return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b),
                    '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a - b * int(a / b), '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                    '<<': lambda: a << b, '>>': lambda: a >> b}[op](), out
        except (KeyError, ZeroDivisionError, ValueError):
            return None, out

    def ctype(self, n, env):
        if not any(x.k == 'CallExpr' and callee(x) == '__ctype_b_loc' for x in walk(n.c[0])):
            return None
        names = [x.name for x in walk(n.c[1]) if x.k == 'DeclRefExpr' and x.name in BIT]
        idx = [x for x in walk(n.c[0]) if x.k == 'ArraySubscriptExpr']
        at = idx[0].c[1] if idx else None
        if at is None:
            for x in walk(n.c[0]):
                if x.k == 'BinaryOperator' and x.op == '+':
                    at = x.c[1]
        if not names or at is None:
            return None
        v = self.ev(at, env, ())[0]
        return None if v is None else self.isit(BIT[names[0]], v)

    def isit(self, name, v):
        if v < 0 or v > 127:
            return 0
        return int(bool(CTYPE[name](chr(v))))

    def call(self, n, env, out):
        name = callee(n)
        args = n.c[1:]
        if name in CTYPE:
            v, out = self.ev(args[0], env, out)
            return (self.isit(name, v) if isinstance(v, int) else None), out
        if name in ('toupper', 'tolower'):
            v, out = self.ev(args[0], env, out)
            return (ord(getattr(chr(v), name[2:])()) if isinstance(v, int) and 0 <= v < 128 else v), out
        if name == 'strchr' or name == 'memchr':
            t, out = self.ev(args[0], env, out); v, out = self.ev(args[1], env, out)
            if isinstance(t, str) and isinstance(v, int):
                return int(chr(v & 255) in t), out
            return None, out
        if name == '__builtin_expect':
            return self.ev(args[0], env, out)
        if name == 'strlen':
            t, out = self.ev(args[0], env, out)
            return (len(t) if isinstance(t, str) else None), out
        f = self.tu.functions.get(name) if name else None
        kind = self.an.writer(name)
        if kind is not None:
            where, fi, rest = kind
            vals = []
            for a in args:
                v, out = self.ev(a, env, out)
                vals.append(v)
            if where == 'putc':
                return None, out + (('file', chr(vals[0] & 255) if isinstance(vals[0], int) else None),)
            t = vals[fi] if fi < len(vals) else None
            if rest and isinstance(t, str):
                t = self.format(t, vals[fi + 1:])
            elif not isinstance(t, str):
                t = None
            if where == 'file':
                return None, out + (('file', t),)
            d = strip(args[0])
            w = self.an.root(args[0])
            plain = d.k == 'DeclRefExpr' and '[' in (d.ty or '')
            if not plain or where == 'cat' and ('s', d.ref) not in env:
                return (len(t) if t is not None else None), out + ((('buf', w), t),)
            if where == 'cat':
                o = env[('s', d.ref)]
                env[('s', d.ref)] = o + t if o is not None and t is not None else None
            else:
                env[('s', d.ref)] = t
            return (len(t) if t is not None else None), out
        vals = []
        for a in args:
            v, out = self.ev(a, env, out)
            vals.append(v)
        if f is not None and f.body is not None and self.depth < 3:
            if not any(isinstance(v, int) for v in vals) and not any(self.an.points(a, self.text) for a in args):
                if not self.an.writes(f):
                    return None, out
            e2 = {}
            text = set(self.text)
            for (pn, pt, pi, pq), a, v in zip(f.params, args, vals):
                e2[pi] = v
                if self.an.points(a, self.text):
                    text.add(pi)
            self.depth += 1
            save, self.text = self.text, text
            try:
                rs = self.run(f.body, e2, out)
            finally:
                self.depth -= 1; self.text = save
            os = set(o for k, v, e, o in rs)
            if len(os) != 1:
                raise Stop('call')
            vs = set(v for k, v, e, o in rs)
            back = {pi: self.an.root(a) for (pn, pt, pi, pq), a in zip(f.params, args)}
            new = tuple((('buf', back.get(w[1], w[1])), t) if w != 'file' else (w, t) for w, t in list(os)[0][len(out):])
            return (vs.pop() if len(vs) == 1 else None), out + new
        return None, out

    def format(self, fmt, vals):
        out = []
        vals = list(vals)
        for m in re.finditer(r'%%|%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z])|[^%]', fmt, re.S):
            if m.group(0) == '%%':
                out.append('%')
            elif m.group(5) is None:
                out.append(m.group(0))
            else:
                if not vals:
                    return None
                v = vals.pop(0); c = m.group(5)
                if v is None:
                    return None
                if c == 'c' and isinstance(v, int):
                    out.append(chr(v & 255))
                elif c == 's' and isinstance(v, str):
                    out.append(v)
                elif c in 'xXoudi' and isinstance(v, int):
                    bits = {'hh': 8, 'h': 16, None: 32}.get(m.group(4), 64)
                    v &= (1 << bits) - 1
                    if c in 'di' and v >> (bits - 1):
                        v -= 1 << bits
                    s = {'x': '%x', 'X': '%X', 'o': '%o'}.get(c, '%d') % v
                    w = int(m.group(2) or 0)
                    if m.group(3):
                        s = s.rjust(int(m.group(3)), '0')
                    s = s.ljust(w) if '-' in m.group(1) else s.rjust(w, '0' if '0' in m.group(1) else ' ')
                    out.append(s)
                else:
                    return None
        return ''.join(out)


class Analysis(object):
    def __init__(self, tu):
        self.tu = tu
        self.funcs = [f for f in tu.functions.values() if f.body is not None and f.file and not f.file.startswith('/')]
        self.calls = {}
        for f in self.funcs:
            for n in walk(f.body):
                if n.k == 'CallExpr' and callee(n):
                    self.calls.setdefault(callee(n), []).append((f, n))
        self.defs = {}              # (function, variable) -> expressions, and ('fill', call, index)
        self.fields = {}
        for f in self.funcs:
            for n in walk(f.body):
                if n.k == 'VarDecl' and n.c and n.c[-1] is not None:
                    self.defs.setdefault(n.id, []).append((f, n.c[-1]))
                elif n.k == 'BinaryOperator' and n.op == '=':
                    t = strip(n.c[0])
                    if t.k == 'DeclRefExpr':
                        self.defs.setdefault(t.ref, []).append((f, n.c[1]))
                    elif not is_char(t.ty):
                        for x in walk(n.c[0]):
                            if x.k == 'MemberExpr' and x.name and re.search(r'char', x.ty or ''):
                                self.fields.setdefault((self.rec(x), x.name), []).append((f, n.c[1]))
                elif n.k == 'CallExpr':
                    for i, a in enumerate(n.c[1:]):
                        r = self.root(a)
                        if r is not None:
                            self.defs.setdefault(r, []).append((f, ('fill', n, i)))
        self.params = {p[2]: (f, i) for f in self.funcs for i, p in enumerate(f.params)}
        self.memo = {}; self.busy = set()
        self.loops = []

    def rec(self, m):
        t = re.sub(r'\b(const|struct)\b', '', (m.c[0].ty or '')).replace('*', '').strip()
        return t

    def writer(self, name):
        """How a function writes text: where to, the argument with it, and whether more follow."""
        return {'fprintf': ('file', 1, True), 'printf': ('file', 0, True), 'fputs': ('file', 0, False), 'puts': ('file', 0, False),
                'fputc': ('putc', 0, False), 'putc': ('putc', 0, False), 'putchar': ('putc', 0, False), '_IO_putc': ('putc', 0, False),
                'sprintf': ('set', 1, True), 'snprintf': ('set', 2, True), 'strcpy': ('set', 1, False), 'strcat': ('cat', 1, False), 'stpcpy': ('set', 1, False)}.get(name)

    def writes(self, f):
        return any(x.k == 'CallExpr' and self.writer(callee(x)) for x in walk(f.body))

    def root(self, n):
        """The variable an expression points into."""
        n = strip(n)
        while n is not None:
            if n.k == 'DeclRefExpr':
                return n.ref if n.val in ('VarDecl', 'ParmVarDecl', None) or n.ref else None
            if n.k == 'BinaryOperator' and n.op in ('+', '-'):
                n = strip(n.c[0])
            elif n.k == 'UnaryOperator' and n.op in ('&', '++', '--', '*'):
                if n.op == '*':
                    return None
                n = strip(n.c[0])
            elif n.k == 'ArraySubscriptExpr':
                n = strip(n.c[0])
            else:
                return None
        return None

    def points(self, n, text):
        n = strip(n)
        if n is None:
            return False
        if n.k == 'DeclRefExpr':
            return n.ref in text
        if n.k == 'UnaryOperator' and n.op in ('++', '--'):
            return self.points(n.c[0], text)
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            return self.points(n.c[0], text)
        if n.k == 'MemberExpr':
            return self.source(n)
        return False

    def source(self, n):
        """The text of an FbleString."""
        return n.k == 'MemberExpr' and n.name == 'str' and 'FbleString' in (n.c[0].ty or '')

    # -- where text comes from ---------------------------------------------
    def raw(self, f, n):
        """Whether an expression may be text of the program as it stands."""
        n = strip(n)
        if n is None:
            return False
        if n.k in ('StringLiteral', 'PredefinedExpr', 'IntegerLiteral'):
            return False
        if n.k == 'ConditionalOperator':
            return self.raw(f, n.c[1]) or self.raw(f, n.c[2])
        if n.k == 'MemberExpr':
            if self.source(n):
                return self.rawstring(f, n.c[0])
            return self.many(('field', self.rec(n), n.name), self.fields.get((self.rec(n), n.name), ()))
        if n.k == 'ArraySubscriptExpr':
            return self.raw(f, n.c[0])
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            return self.raw(f, n.c[0])
        if n.k == 'BinaryOperator' and n.op in ('=', ','):
            return self.raw(f, n.c[1])
        if n.k == 'UnaryOperator' and n.op in ('++', '--', '&', '*'):
            return self.raw(f, n.c[0])
        if n.k == 'DeclRefExpr':
            return self.rawvar(n.ref)
        if n.k == 'CallExpr':
            name = callee(n)
            if name in ('getcwd', 'realpath', 'get_current_dir_name'):
                return True
            if name in ('strdup', 'strchr', 'strrchr', 'strstr', 'strcpy', 'strcat', 'basename'):
                return any(self.raw(f, a) for a in n.c[1:])
            g = self.tu.functions.get(name) if name else None
            if g is not None and g.body is not None:
                return self.many(('ret', name), [(g, x.c[0]) for x in walk(g.body) if x.k == 'ReturnStmt' and x.c and x.c[0] is not None])
        return False

    def many(self, key, defs):
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return False
        self.busy.add(key)
        r = any(self.rawdef(f, d, key) for f, d in defs)
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def rawvar(self, v):
        defs = list(self.defs.get(v, ()))
        if v in self.params:
            f, i = self.params[v]
            if f.static:
                defs += [(g, c.c[1 + i]) for g, c in self.calls.get(f.name, ()) if 1 + i < len(c.c)]
        return self.many(('var', v), defs)

    def rawdef(self, f, d, key):
        if not isinstance(d, tuple):
            if d.k == 'InitListExpr':
                return any(self.raw(f, x) for x in d.c if x is not None)
            return self.raw(f, d)
        _, call, i = d
        name = callee(call)
        args = call.c[1:]
        if name in BUILDERS and i == 0:
            if name in ('getcwd', 'realpath'):
                return True
            if name in ('sprintf', 'snprintf'):
                k = 1 if name == 'sprintf' else 2
                return any(self.raw(f, a) for a in self.strargs(args, k))
            return self.raw(f, args[1])
        g = self.tu.functions.get(name) if name else None
        if g is not None and g.body is not None and i < len(g.params) and 'const' not in (g.params[i][1] or '') and is_text(g.params[i][1]):
            # a buffer this function fills
            return self.filled(g, g.params[i][2])
        return False

    def filled(self, g, v):
        """Whether a function puts raw text where a parameter points."""
        defs = [(f, d) for f, d in self.defs.get(v, ()) if isinstance(d, tuple)]
        return self.many(('fills', v), defs) or any(l['kind'] == 'raw' for l in self.charloops(g) if ('buf', v) in l['where'])

    def strargs(self, args, k):
        fmt = args[k] if k < len(args) else None
        fmts = self.formats(fmt)
        if fmts is None:
            return [a for a in args[k + 1:] if is_text(strip(a).ty)]
        out = []
        for s in fmts:
            i = k + 1
            for m in re.finditer(r'%%|%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z])', s):
                if m.group(0) == '%%':
                    continue
                i += (m.group(1) == '*') + (m.group(2) == '*')
                if m.group(4) == 's' and i < len(args):
                    out.append(args[i])
                i += 1
        return out

    def formats(self, n):
        n = strip(n)
        if n is not None and n.k == 'ConditionalOperator':
            a, b = self.formats(n.c[1]), self.formats(n.c[2])
            return a + b if a is not None and b is not None else None
        t = literal(n)
        return None if t is None else [t]

    # -- loops over the characters of a text -------------------------------
    def charloops(self, f):
        key = ('loops', f.name)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        for n in walk(f.body):
            if n.k not in ('ForStmt', 'WhileStmt', 'DoStmt'):
                continue
            body = n.c[4] if n.k == 'ForStmt' else n.c[1] if n.k == 'WhileStmt' else n.c[0]
            if body is None or any(x.k in ('ForStmt', 'WhileStmt', 'DoStmt') for x in walk(body)):
                continue
            text = set()
            direct = False
            for x in walk(n):
                if x.k in ('ArraySubscriptExpr',) or x.k == 'UnaryOperator' and x.op == '*':
                    if not is_char(x.ty):
                        continue
                    b = strip(x.c[0])
                    r = self.root(b)
                    if r is not None and (self.rawvar(r)):
                        text.add(r)
                    elif b.k == 'MemberExpr' and self.source(b) and self.raw(f, b):
                        direct = True
            if not text and not direct:
                continue
            got = {}; unknown = 0; where = set()
            for v in CHARS:
                try:
                    rs = Loop(self, f, self.tu, text, v).run(body, {}, ())
                except Stop:
                    unknown += 1
                    continue
                outs = set()
                for k, val, e, o in rs:
                    t = {}
                    for w, s in o:
                        where.add(w)
                        t[w] = None if s is None or w in t and t[w] is None else t.get(w, '') + s
                    outs.add(tuple(sorted(t.items(), key=str)))
                if len(outs) == 1 and outs != {()}:
                    got[v] = dict(list(outs)[0])
                elif outs != {()}:
                    unknown += 1
                else:
                    got[v] = {}
            if not where:
                continue
            l = dict(node=n, where=where, kind='?', unknown=unknown, got=got, bad=None)
            for w in where:
                self.classify(l, w)
            out.append(l)
        self.memo[key] = out
        return out

    def classify(self, l, w):
        quoted = ident = True
        badq = badi = None
        seen = 0
        for v, t in sorted(l['got'].items()):
            s = t.get(w, '')
            if s is None:
                continue
            seen += 1
            if unescape(s) != chr(v):
                # octal digits run on into what follows them
                quoted = False; badq = badq or (v, s)
            elif re.search(r'\\x|\\[0-7]{1,2}$', s):
                quoted = False; badq = badq or (v, s)
            if not re.match(r'^[A-Za-z0-9_]*$', s):
                ident = False; badi = badi or (v, s)
        if not seen:
            return
        kind = 'quoted' if quoted else 'ident' if ident else 'raw'
        l['kind'] = kind if l['kind'] in ('?', kind) or kind == 'raw' else l['kind']
        if kind == 'raw':
            # which of the two it is meant to be
            asis = sum(1 for v, t in l['got'].items() if t.get(w) == chr(v))
            wrongq = sum(1 for v, t in l['got'].items() if t.get(w) is not None and unescape(t[w]) != chr(v))
            wrongi = sum(1 for v, t in l['got'].items() if t.get(w) is not None and not re.match(r'^[A-Za-z0-9_]*$', t[w]))
            l['bad'] = badq if wrongq <= wrongi else badi
        if kind == 'ident':
            texts = {}
            for v, t in l['got'].items():
                if t.get(w) is not None:
                    texts.setdefault(t[w], []).append(v)
            dup = [vs for s, vs in texts.items() if len(vs) > 1]
            pre = [(texts[a][0], texts[b][0]) for a in texts for b in texts if a != b and b.startswith(a)]
            l['same'] = dup[0][:2] if dup else pre[0] if pre else None


def name(v):
    return repr(chr(v)) if 32 <= v < 127 else 'character %d' % v


def analyse(tus):
    res = []
    labels = {}
    for rel in GENERATORS:
        tu = tus.get(rel)
        if tu is None:
            continue
        an = Analysis(tu)
        for f in an.funcs:
            v = []; n = 0
            # text written as it stands
            for c in walk(f.body):
                if c.k != 'CallExpr':
                    continue
                nm = callee(c)
                w = an.writer(nm)
                args = c.c[1:]
                g = tu.functions.get(nm) if nm else None
                todo = []
                if w and w[0] == 'file':
                    todo = an.strargs(args, w[1]) if w[2] else [args[w[1]]]
                elif g is not None and g.variadic and g.params and is_text(g.params[-1][1]):
                    todo = an.strargs(args, len(g.params) - 1)
                for a in todo:
                    n += 1
                    if an.raw(f, a):
                        v.append({'rule': 'raw', 'file': c.file, 'line': c.line, 'function': f.name, 'root': f.name, 'path': '',
                                  'msg': 'text of the program is written to the output of the compiler as it stands: nothing escapes what is special there'})
            for l in an.charloops(f):
                n += len(l['got'])
                if l['kind'] == 'raw' and l['bad']:
                    v.append({'rule': 'escape', 'file': l['node'].file, 'line': l['node'].line, 'function': f.name, 'root': f.name, 'path': '',
                              'msg': '%s of a text becomes %r, which is neither that character between quotes nor part of an identifier' % (name(l['bad'][0]), l['bad'][1])})
                elif l['kind'] == 'ident' and 'FbleString' in (f.ret or '') and len(l['where']) == 1:
                    w = list(l['where'])[0]
                    labels.setdefault(f.name, []).append((f, l, {c: t[w] for c, t in l['got'].items() if t.get(w) is not None}))
                if l.get('same') and 'FbleString' in (f.ret or ''):
                    v.append({'rule': 'distinct', 'file': l['node'].file, 'line': l['node'].line, 'function': f.name, 'root': f.name, 'path': '',
                              'msg': '%s and %s of a name cannot be told apart in the label made from it' % (name(l['same'][0]), name(l['same'][1]))})
            if n:
                res.append(dict(rel=rel, func=f.name, status='ok', violations=v, stats={'stmts': 0, 'calls': 0, 'obligations': n}))
    # a module compiled one way refers to one compiled the other way by its label
    for nm, ls in labels.items():
        if len(ls) == 2 and ls[0][0].file != ls[1][0].file:
            (f, l, a), (g, m, b) = ls
            d = [c for c in a if c in b and a[c] != b[c]]
            if d:
                res.append(dict(rel=g.file, func=g.name, status='ok', stats={'stmts': 0, 'calls': 0, 'obligations': 1}, violations=[
                    {'rule': 'label', 'file': g.file, 'line': m['node'].line, 'function': g.name, 'root': g.name, 'path': '',
                     'msg': '%s of a name becomes %r in the label of a module, and %r in %s' % (name(d[0]), b[d[0]], a[d[0]], f.file)}]))
    return res


def rawstring(self, f, n):
    """The contents of an FbleString: made here of something, or given."""
    n = strip(n)
    if n.k == 'DeclRefExpr':
        ds = [d for d in self.defs.get(n.ref, ()) if not isinstance(d[1], tuple)]
        if n.ref in self.params or not ds:
            return True
        return any(self.rawstring(g, d) for g, d in ds)
    if n.k == 'CallExpr':
        nm = callee(n)
        if nm in ('FbleNewString',):
            return self.raw(f, n.c[1])
        g = self.tu.functions.get(nm) if nm else None
        if g is not None and g.body is not None:
            key = ('strret', nm)
            if key in self.memo:
                return self.memo[key]
            self.memo[key] = False
            self.memo[key] = any(self.rawstring(g, x.c[0]) for x in walk(g.body) if x.k == 'ReturnStmt' and x.c and x.c[0] is not None)
            return self.memo[key]
    return True


Analysis.rawstring = rawstring


if __name__ == '__main__':
    import core
    core.load_all(list(GENERATORS))
    rs = analyse({r: core.tu(r) for r in GENERATORS})
    print(len(rs), sum(r['stats']['obligations'] for r in rs))
    for r in rs:
        for v in r['violations']:
            print((v['file'], v['line'], v['function'], v['msg']))
