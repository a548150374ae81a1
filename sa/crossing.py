"""What crosses between fble programs and C: integers, characters, strings, streams.

The order of the choices of a union and of the fields of a struct is read from
the fble sources of the package; the C side is judged against it.
"""
import os
import re

import core
import fe
import terms
from rules import All, Any, Case, Each, Ends, Fn, Part

CORE = 'pkgs/core/Core/'


def words(text):
    """The words and punctuation of an fble source: (is quoted or a word, text)."""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
        elif c == '#':
            while i < len(text) and text[i] != '\n':
                i += 1
        elif c == "'":
            j, w = i + 1, ''
            while j < len(text):
                if text[j] == "'":
                    if text[j + 1:j + 2] != "'":
                        break
                    j += 1
                w += text[j]
                j += 1
            out.append((True, w))
            i = j + 1
        elif c.isalnum() or c == '_' or ord(c) >= 128:
            j = i
            while j < len(text) and (text[j].isalnum() or text[j] == '_' or ord(text[j]) >= 128):
                j += 1
            out.append((True, text[i:j]))
            i = j
        else:
            out.append((False, c))
            i += 1
    return out


def members(rel, name):
    """The names of the members of the union or struct type called name, in order; None if it is not there."""
    try:
        with open(os.path.join(fe.REPO, rel), encoding='latin-1') as f:
            ws = words(f.read())
    except OSError:
        return None
    for i in range(len(ws) - 3):
        if ws[i] == (False, '@') and ws[i + 1] == (True, name) and ws[i + 2] == (False, '@') and ws[i + 3] == (False, '='):
            j = i + 4
            while j < len(ws) and ws[j] not in ((False, '+'), (False, '*'), (False, ';')):
                j += 1
            if j + 1 >= len(ws) or ws[j] == (False, ';') or ws[j + 1] != (False, '('):
                return None
            out, depth = [], 0
            for k in range(j + 1, len(ws)):
                q, w = ws[k]
                if not q and w in '([{<':
                    depth += 1
                elif not q and w in ')]}>':
                    depth -= 1
                if depth == (0 if w == ')' else 1) and not q and w in ',)' and (w == ',' or depth == 0):
                    out.append(ws[k - 1][1] if ws[k - 1][0] else None)
                if depth == 0:
                    return out
    return None


def tags(rel, name, default):
    got = members(rel, name) or []
    return [got.index(x) if x in got else i for i, x in enumerate(default)]


def crossing():
    """Integers, characters, strings and streams cross between fble and C as they are."""
    I, C, S, IO = ('pkgs/core/%s.fble.c' % x for x in ('int', 'char', 'string', 'stdio'))
    neg, zero, pos = tags(CORE + 'Int.fble', 'Int', ['n', '0', 'p'])
    one, even, odd = tags(CORE + 'Int/IntP.fble', 'IntP', ['1', '2p0', '2p1'])
    cons, nil = tags(CORE + 'List.fble', 'L', ['cons', 'nil'])
    just, nothing = tags(CORE + 'Maybe.fble', 'Maybe', ['just', 'nothing'])
    order = members(CORE + 'Stdio.fble', 'Stdio') or []
    if sorted(x or '' for x in order) != ['err', 'getenv', 'in', 'out', 'read', 'write']:
        order = ['in', 'out', 'err', 'read', 'write', 'getenv']
    T = 'FbleUnionValueTag(x)'
    A = 'FbleUnionValueArg(x)'

    def tag(n, t=T):
        return Any('!' + t, '%s == 0' % t) if n == 0 else '%s == %d' % (t, n)

    def other(n, t=T):
        return Any(t, t + ' != 0', '0 < ' + t) if n == 0 else '%s != %d' % (t, n)
    r2 = 'return 2*ReadIntP(%s)' % A
    pair = lambda x: 'FbleNewUnionValue(heap, %d, FbleNewStructValue_(heap, 2, %s, $s))' % (cons, x)
    empty = 'FbleNewEnumValue(heap, %d)' % nil
    ended = ['FbleUnionValueTag(?str) != %d' % cons] + (['FbleUnionValueTag(?str)'] if cons == 0 else [])
    D = 'FbleNativeValueData(function.statics)'
    G = 'fgetc(%s)' % D
    made = lambda w, x: 'return FbleNewStructValue_(heap, 2, %s, %s)' % (w, x)
    J = lambda x: 'FbleNewUnionValue(heap, %d, %s)' % (just, x)
    N = 'FbleNewEnumValue(heap, %d)' % nothing
    text = 'FbleStringValueAccess(args)'

    def opened(name, mode, stream):
        f = 'fopen(%s, "%s")' % (text, mode)
        return Fn(IO, name, ['heap', 'profile', 'function', 'args'], [
            Case('opened', [], Any(All(f, made('args[1]', J('%s(heap, %s, ~)' % (stream, f)))), All('!' + f, made('args[1]', N))))], ways='all', only=['IStream', 'OStream', 'FbleStringValueAccess'])

    def func(name, n, run, native):
        v = 'FbleNewNativeValue(heap, file, fn[OnFree])'
        return Fn(IO, name, ['heap', 'file', 'block'] if native else ['heap', 'block'], [
            Case('made', [], 'return FbleNewFuncValue(heap, {~.num_args=%d~.num_statics=%d~.run=fn[%s]~}, block, %s)' % (n, 1 if native else 0, run, '~' + v + '~' if native else '~'))], ways='all', only=[])
    B = 'FbleAddBlocksToProfile(profile, ~)'
    made_of = {'in': 'IStream(heap, stdin, %s)', 'out': 'OStream(heap, stdout, %s)', 'err': 'OStream(heap, stderr, %s)', 'read': 'Read(heap, %s)', 'write': 'Write(heap, %s)', 'getenv': 'GetEnv(heap, %s)'}
    return [
        Fn(I, 'MakeIntP', ['heap', 'x'], [
            Case('by its bits', [], Any(All('x == 1', 'return FbleNewEnumValue(heap, %d)' % one),
                                        All('x != 1', Any(*by_bit(even, odd)))))], ways='all', only=['MakeIntP']),
        Fn(I, 'ReadIntP', ['x'], [Case('by its bits', [], Any(All(tag(one), 'return 1'), All(tag(even), r2), All(other(one), other(odd), r2), All(tag(odd), r2 + '+1'), All(other(one), other(even), r2 + '+1')))], ways='all', only=['ReadIntP']),
        Fn(I, 'FbleNewIntValue', ['heap', 'x'], [
            Case('by its sign', [], Any(All('x < 0', 'return FbleNewUnionValue(heap, %d, MakeIntP(heap, -x))' % neg), All('!x', 'return FbleNewEnumValue(heap, %d)' % zero),
                                        All('x >= 0', 'x', 'return FbleNewUnionValue(heap, %d, MakeIntP(heap, x))' % pos), All('0 < x', 'return FbleNewUnionValue(heap, %d, MakeIntP(heap, x))' % pos)))], ways='all', only=['MakeIntP']),
        Fn(I, 'FbleIntValueAccess', ['x'], [
            Case('by its sign', [], Any(All(tag(neg), 'return -ReadIntP(%s)' % A), All(tag(zero), 'return 0'), All(tag(pos), 'return ReadIntP(%s)' % A)))], ways='all', only=['ReadIntP']),
        Fn(C, 'FbleNewCharValue', ['heap', 'c'], [
            Case('by its place', [], Any(All('strchr($c, c)', 'c', 'return FbleNewEnumValue(heap, strchr($c, c)-$c)'),
                                         All(Any('!strchr($c, c)', '!c'), Any('return FbleNewCharValue(heap, 63)', 'return FbleNewEnumValue(heap, strchr($c, 63)-$c)'))))],
           ways='all', only=['FbleNewCharValue'], domain={'$c': r'(?s)call strchr\((.*), c\)$'}),
        Fn(C, 'FbleCharValueAccess', ['c'], [Case('by its place', [], Any('return ~[FbleUnionValueTag(c)]'))], ways='all'),
        Fn(S, 'FbleNewStringValue', ['heap', 'str'], [
            Case('one after another', [], "return $s'", 'init($s) = ' + empty, Each('down strlen(str)', 'next($s) = ' + pair('FbleNewCharValue(heap, str[i])')))], ways='all', only=['FbleNewCharValue']),
        Fn(S, 'FbleStringValueAccess', ['str'], [
            Case('one after another', [], 'init($v) = str', 'init($n) = 0', Any(Ends('FbleUnionValueTag($v) != %d' % cons), *ended),
                 Part('~', '~[$n] := FbleCharValueAccess(FbleStructValueField(FbleUnionValueArg($v), 0))', 'next($n) = $n+1', 'next($v) = FbleStructValueField(FbleUnionValueArg($v), 1)'), Any("~[$n'] := 0", '~[$n] := 0'), 'return ~')], ways='all', only=['FbleCharValueAccess']),
        Fn(S, 'FbleDebugTrace', ['str'], [Case('printed', [], 'emit stderr "{FbleStringValueAccess(str)}"')], ways='all', only=['FbleStringValueAccess']),
        Fn(IO, 'IStreamImpl', ['heap', 'profile', 'function', 'args'], [
            Case('the next byte', [], Any(All(G + ' == -1', made('args', N)), All(G + ' != -1', made('args', J('FbleNewIntValue(heap, %s)' % G)))))], ways='all', only=['FbleNewIntValue']),
        Fn(IO, 'OStreamImpl', ['heap', 'profile', 'function', 'args'], [
            Case('the byte', [], 'emit %s "{FbleIntValueAccess(args)}"' % D, 'call fflush(%s)' % D, made('args[1]', 'FbleNewStructValue_(heap, 0)'))], ways='all', only=['FbleIntValueAccess']),
        opened('ReadImpl', 'r', 'IStream'), opened('WriteImpl', 'w', 'OStream'),
        Fn(IO, 'GetEnvImpl', ['heap', 'profile', 'function', 'args'], [
            Case('looked up', [], Any(All('getenv(%s)' % text, made('args[1]', J('FbleNewStringValue(heap, getenv(%s))' % text))), All('!getenv(%s)' % text, made('args[1]', N))))], ways='all', only=['FbleStringValueAccess', 'FbleNewStringValue']),
        func('IStream', 1, 'IStreamImpl', True), func('OStream', 2, 'OStreamImpl', True), func('Read', 2, 'ReadImpl', False), func('Write', 2, 'WriteImpl', False), func('GetEnv', 2, 'GetEnvImpl', False),
        Fn(IO, 'OnFree', ['data'], [Case('closed', [], Any(All('data == stderr', 'no call fclose(~'), All('data != stderr', 'call fclose(data)')))], ways='all'),
        Fn(IO, 'FbleNewStdioIO', ['heap', 'profile'], [Case('its parts', [], Any(*['return %s(heap, %d, %s)' % (f, len(order), ', '.join(made_of[x] % '~' for x in order)) for f in ('FbleNewStructValue_', 'FbleNewStructValue')]))], ways='all', only=['IStream', 'OStream', 'Read', 'Write', 'GetEnv']),
        Fn(IO, 'FbleStdio', ['heap', 'profile', 'stdio', 'argc', 'argv'], [
            Case('run', [], Any(
                '!FbleEval(heap, stdio, profile)',
                All('!FbleApply(heap, FbleEval(heap, stdio, profile), 2, ~, profile)', 'return FblePopFrame(heap, 0)'),
                All('!FbleApply(heap, FbleApply(~), 1, ~, profile)', 'return FblePopFrame(heap, 0)'),
                'return FblePopFrame(heap, FbleStructValueField(FbleApply(heap, FbleApply(heap, FbleEval(heap, stdio, profile), 2, ~, profile), 1, ~FbleNewStructValue_(heap, 0)~, profile), 1))')),
            Case('its arguments', ['FbleEval(heap, stdio, profile)'], 'init($s) = ' + empty, Each('down argc', 'next($s) = ' + pair('argv[i]')))], ways='all', only=['FbleNewStdioIO']),
        Fn(IO, 'FbleStdioMain', ['argc', 'argv', 'module'], [
            Case('its arguments', [], Any('no call FbleStdio(~', All(Any("call FbleStdio(~, ?~', [FbleNewStringValue(~[*])])", "call FbleStdio(~, e{?~'}, [FbleNewStringValue(~[*])])", All('call FbleStdio(~, FbleAllocRaw(8))', Part('down ~', 'FbleAllocRaw(8)[$n] := FbleNewStringValue(~, $v)', 'next($v) = $v[1]', 'next($n) = $n+1'))), Any(All('FbleStdio(~', 'return FbleUnionValueTag(FbleStdio(~'), All('!FbleStdio(~', 'return 3')))))], ways='all', only=['FbleStdio', 'FbleNewStringValue']),
    ]


def by_bit(even, odd):
    out = []
    for half in ('MakeIntP(heap, (x / 2))', 'MakeIntP(heap, (x >> 1))'):
        u = lambda n: 'return FbleNewUnionValue(heap, %d, %s)' % (n, half)
        for b in ('(x % 2)', '(x & 1)'):
            if odd == even + 1:
                out.append('return FbleNewUnionValue(heap, %s+%d, %s)' % (b, even, half))
            out += [All(Any('!%s' % b, '%s == 0' % b, '%s != 1' % b), u(even)), All(Any(b, '%s == 1' % b, '%s != 0' % b), u(odd))]
    return out


def characters():
    """The characters C knows are those of the type Char@, in its order."""
    rel = 'pkgs/core/char.fble.c'
    r = {'rel': rel, 'func': 'Char@', 'status': 'ok', 'violations': [], 'stats': {'ways': 0, 'obligations': 0}, 'samples': []}
    names = members(CORE + 'Char.fble', 'Char')
    if not names:
        r['status'] = 'undecided'
        r['why'] = 'Char@ is not a union of names'
        return [r]
    want = ''.join(x for x in names if x and len(x) == 1)
    if [x for x in names if x and len(x) == 1] != names[:len(want)]:
        r['status'] = 'undecided'
        r['why'] = 'characters and others are mixed'
        return [r]
    tu = core.tu(rel)
    tables = [n for g in tu.globals.values() for n in fe.walk(g) if n.k == 'StringLiteral' and len(n.val) > 40]
    tables += [n for f in tu.functions.values() if f.body is not None for n in fe.walk(f.body) if n.k == 'StringLiteral' and len(n.val) > 80]
    for n in tables:
        got = terms.cstr(n.val)
        r['stats']['ways'] += 1
        r['stats']['obligations'] += len(want)
        i = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), None)
        if i is not None:
            r['violations'].append({'rule': 'rules', 'file': rel, 'line': n.line, 'function': 'Char@', 'root': 'Char@', 'path': '',
                                    'msg': 'character %d is %r here and %r in %sChar.fble' % (i, got[i:i + 1], want[i:i + 1], CORE)})
    return [r]


def narrow(rels=None):
    """What fgetc gives is kept as wide as it is, so that no byte is taken for the end, and an integer made of it is made of all of it."""
    out = []
    for rel in rels or [r for r in fe.sources() if re.match(r'(lib|bin|fbld|pkgs)/', r)]:
        tu = core.tu(rel)
        r = {'rel': rel, 'func': 'fgetc', 'status': 'ok', 'violations': [], 'stats': {'ways': 0, 'obligations': 0}, 'samples': []}

        def bare(n):
            """The expression under casts and brackets, and whether a cast on the way is to a type of characters."""
            thin = False
            while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
                thin = thin or small(n.ty)
                n = n.c[0]
            return n, thin
        for name, f in sorted(tu.functions.items()):
            if f.body is None:
                continue
            for n in fe.walk(f.body):
                if n.k in ('ImplicitCastExpr', 'CStyleCastExpr') and rel in WIDE and n.c and n.c[0] is not None:
                    x, _ = bare(n.c[0])
                    if x is not None and wide(n.c[0]) and (small(n.ty) or SHORT.match(n.ty or '') or (rel.endswith('/int.fble.c') and INT.match(n.ty or ''))):
                        r['stats']['obligations'] += 1
                        r['violations'].append({'rule': 'rules', 'file': rel, 'line': n.line, 'function': name, 'root': name, 'path': '', 'msg': 'a number is cut to %s' % n.ty})
                for c in n.c:
                    if c is None or c.k not in ('ImplicitCastExpr', 'CStyleCastExpr', 'CallExpr'):
                        continue
                    if n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
                        continue
                    x, thin = bare(c)
                    if x is not None and x.k == 'CallExpr' and fe.callee(x) in ('fgetc', 'getc', 'getchar'):
                        r['stats']['ways'] += 1
                        r['stats']['obligations'] += 1
                        if thin:
                            r['violations'].append({'rule': 'rules', 'file': rel, 'line': x.line, 'function': name, 'root': name, 'path': '', 'msg': 'what %s gives is cut to a character, so that a byte reads as the end of the file' % fe.callee(x)})
                if n.k == 'CallExpr' and fe.callee(n) == 'FbleNewIntValue' and len(n.c) == 3:
                    x, thin = bare(n.c[2])
                    r['stats']['obligations'] += 1
                    if thin and not (x is not None and small(x.ty)):
                        r['violations'].append({'rule': 'rules', 'file': rel, 'line': n.line, 'function': name, 'root': name, 'path': '', 'msg': 'an integer is cut to a character before it is made a value'})
        if r['stats']['obligations']:
            out.append(r)
    return out


def small(ty):
    return re.sub(r'\b(const|volatile)\b', '', ty or '').strip() in ('char', 'signed char', 'unsigned char', 'int8_t', 'uint8_t')


WIDE = {'pkgs/core/int.fble.c', 'pkgs/core/string.fble.c', 'pkgs/core/stdio.fble.c'}
SHORT = re.compile(r'(const )?(unsigned )?(short|u?int16_t)$')
INT = re.compile(r'(const )?(unsigned|unsigned int|int|u?int32_t)$')
LONG = re.compile(r'(const )?(u?int64_t|size_t|(unsigned )?long( long)?|ssize_t|intptr_t)$')


def wide(n):
    """The number is made of one of 64 bits, and not of its last bits, nor a tag."""
    while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
        n = n.c[0]
    if n is None:
        return False
    if n.k == 'BinaryOperator' and (n.op in ('%', '&', '==', '!=', '<', '>', '<=', '>=', '&&', '||')):
        return False
    if n.k == 'CallExpr':
        return bool(LONG.match(n.ty or '')) and fe.callee(n) not in ('FbleUnionValueTag', 'FbleIntValueAccess')
    if n.k == 'DeclRefExpr':
        return bool(LONG.match(n.ty or ''))
    if n.k in ('ConditionalOperator',):
        return any(wide(c) for c in n.c[1:])
    if n.k in ('BinaryOperator', 'UnaryOperator'):
        return any(wide(c) for c in n.c if c is not None)
    return False
