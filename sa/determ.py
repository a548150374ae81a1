"""What the tools write depends on nothing but what they read.

Everything reachable from the tools that generate text is searched for uses
of what differs between runs: clocks, random numbers, process and user
identities, addresses of objects turned into numbers, ordered or printed, the
order of directories, and variables that outlive a call.
"""
import re
import fe, engine, lint
from fe import walk, callee

TOOLS = ('bin/fble-compile.c', 'bin/fble-disassemble.c', 'bin/fble-deps.c', 'fbld/fbld.c')
VARYING = {
    'rand': 'random numbers', 'random': 'random numbers', 'rand_r': 'random numbers', 'drand48': 'random numbers', 'lrand48': 'random numbers', 'mrand48': 'random numbers',
    'arc4random': 'random numbers', 'getrandom': 'random numbers', 'getentropy': 'random numbers', 'srand': 'random numbers', 'srandom': 'random numbers',
    'time': 'the time', 'clock': 'the time', 'gettimeofday': 'the time', 'clock_gettime': 'the time', 'times': 'the time', 'localtime': 'the time', 'gmtime': 'the time',
    'ctime': 'the time', 'localtime_r': 'the time', 'gmtime_r': 'the time', 'strftime': 'the time', 'ftime': 'the time', 'getrusage': 'the time', 'timespec_get': 'the time',
    'getpid': 'the process', 'getppid': 'the process', 'gettid': 'the process', 'getpgrp': 'the process', 'getuid': 'the user', 'geteuid': 'the user', 'getlogin': 'the user', 'cuserid': 'the user',
    'gethostname': 'the machine', 'uname': 'the machine', 'sysconf': 'the machine', 'mkstemp': 'a temporary name', 'mktemp': 'a temporary name', 'tmpnam': 'a temporary name', 'tempnam': 'a temporary name',
    'readdir': 'the order of a directory', 'scandir': 'the order of a directory', 'ftw': 'the order of a directory', 'nftw': 'the order of a directory', 'glob': 'the order of a directory',
    'setlocale': 'the locale', 'nl_langinfo': 'the locale', 'localeconv': 'the locale',
    'pthread_self': 'the process', 'pthread_create': 'the schedule', 'fork': 'the process', 'mallinfo': 'the layout of memory', 'sbrk': 'the layout of memory',
}
ENV = {'FBLE_PACKAGE_PATH'}


def is_ptr(T, ty):
    try:
        return T.parse(ty)[0] in ('ptr', 'arr', 'fn')
    except Exception:
        return False


def constant(n, inits=None):
    """Whether the value of an expression is fixed when it is compiled."""
    for x in walk(n):
        if x.k == 'DeclRefExpr' and inits and x.ref in inits and constant(inits[x.ref]):
            continue
        if x.k in ('DeclRefExpr',) and x.val != 'EnumConstantDecl' or x.k in ('CallExpr', 'MemberExpr', 'ArraySubscriptExpr', 'StringLiteral'):
            return False
    return True


def strip(n):
    while n is not None and n.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
        n = n.c[0]
    return n


def reachable(tus):
    """Functions the tools may run: name -> (rel, Function)."""
    defs, stat = {}, {}
    for rel, t in tus.items():
        for f in t.functions.values():
            if f.body is None or not f.file or f.file.startswith('/'):
                continue
            (stat if f.static else defs).setdefault((rel, f.name) if f.static else f.name, (rel, f))
    work = [(rel, 'main') for rel in TOOLS if rel in tus]
    mains = {rel: t.functions.get('main') for rel, t in tus.items()}
    seen = {}
    while work:
        rel, name = work.pop()
        if name == 'main':
            hit = (rel, mains.get(rel)) if mains.get(rel) else None
        else:
            hit = stat.get((rel, name)) or defs.get(name)
        if hit is None or (hit[0], name) in seen:
            continue
        seen[(hit[0], name)] = hit
        for n in walk(hit[1].body):
            if n.k == 'DeclRefExpr' and n.val == 'FunctionDecl':
                work.append((hit[0], n.name))
    return seen


FILETIMES = {'st_mtime', 'st_atime', 'st_ctime', 'st_mtim', 'st_atim', 'st_ctim', 'st_ino', 'st_dev', 'tv_sec', 'tv_nsec'}


def loaded(n, params):
    """A pointer that is not a cursor of the function's own."""
    n = strip(n)
    return n is not None and (n.k in ('MemberExpr', 'ArraySubscriptExpr', 'CallExpr') or n.k == 'DeclRefExpr' and n.ref in params or n.k == 'UnaryOperator' and n.op == '*')


def stamps(rel):
    """Lines that have the time of the build in them."""
    import os
    p = os.path.join(fe.REPO, rel)
    if not os.path.isfile(p):
        return
    text = open(p, encoding='latin-1').read()
    text = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    for m in re.finditer(r'\b__(DATE|TIME|TIMESTAMP)__\b', text):
        yield text.count('\n', 0, m.start()) + 1


def determinism(tus):
    res = []
    for (rel, name), (_, f) in sorted(reachable(tus).items()):
        t = tus[rel]
        T = engine.Types(t)
        r = dict(rel=rel, func=name, status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 0})
        res.append(r)

        params = {p[2] for p in f.params}

        def bad(n, msg):
            if n.file == 'lib/parse.tab.c':
                return          # of bison's
            r['violations'].append({'rule': 'varies', 'file': n.file or rel, 'line': n.line, 'function': name, 'root': name, 'msg': msg, 'path': ''})
        local = set()
        inits = {n.id: n.c[0] for n in walk(f.body) if n.k == 'VarDecl' and n.c and n.c[0] is not None and 'static' != n.op}
        for n in walk(f.body):
            if n.k == 'BinaryOperator' and n.op == '=' and n.c[0].k == 'DeclRefExpr':
                inits.pop(n.c[0].ref, None)
        for n in walk(f.body):
            if n.k == 'VarDecl':
                local.add(n.id)
                if n.op == 'static' and not re.search(r'\bconst\b', n.x or n.ty or ''):
                    r['stats']['obligations'] += 1
                    bad(n, 'what %s holds is left from one call to the next' % n.name)
        local |= {p[2] for p in f.params}
        for n in walk(f.body):
            if n.k == 'CallExpr':
                r['stats']['calls'] += 1
                c = callee(n)
                if c in VARYING:
                    r['stats']['obligations'] += 1
                    bad(n, '%s depends on %s' % (c, VARYING[c]))
                if c in ('getenv', 'secure_getenv'):
                    r['stats']['obligations'] += 1
                    s = lint.strings(n.c[1])
                    if s is None or not set(s) <= ENV:
                        bad(n, 'the environment is consulted for %s' % (s or 'something'))
                if c in lint.PRINTF:
                    i = lint.PRINTF[c]
                    for s in (lint.strings(n.c[1 + i]) if len(n.c) > 1 + i else None) or ():
                        k = 0
                        for m in re.finditer(r'%(%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z]))', s):
                            if m.group(1) == '%':
                                continue
                            k += (m.group(2) == '*') + (m.group(3) == '*')
                            if m.group(4) == 'p':
                                r['stats']['obligations'] += 1
                                a = n.c[2 + i + k] if len(n.c) > 2 + i + k else None
                                if a is None or not constant(a, inits):
                                    bad(n, 'an address is written')
                            k += 1
            elif n.k in ('CStyleCastExpr', 'ImplicitCastExpr') and n.op == 'PointerToIntegral':
                r['stats']['obligations'] += 1
                if not constant(n.c[0], inits):
                    bad(n, 'an address is turned into a number')
            elif n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=') and is_ptr(T, n.c[0].ty) and is_ptr(T, n.c[1].ty):
                r['stats']['obligations'] += 1
                if loaded(n.c[0], params) and loaded(n.c[1], params) and lint.kind(T, n.c[0].ty) != 'str':
                    bad(n, 'addresses are put in order')
            elif n.k == 'MemberExpr' and n.name in FILETIMES:
                bad(n, 'the time or number of a file is looked at')
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and n.op and (n.op in ('++', '--') or n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=')):
                x = n.c[0]
                while x is not None and x.k in ('MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr') and not (x.k == 'MemberExpr' and x.val) and not (x.k == 'ImplicitCastExpr' and x.op == 'LValueToRValue'):
                    x = x.c[0]
                if x is not None and x.k == 'DeclRefExpr' and x.val == 'VarDecl' and x.ref not in local and not rel.endswith('alloc.c'):
                    r['stats']['obligations'] += 1
                    bad(n, 'what %s holds is left from one call to the next' % x.name)
    files = sorted({rel for rel, _ in reachable(tus)})
    for rel in files:
        for line in stamps(rel):
            r = dict(rel=rel, func='(file)', status='ok', violations=[], stats={'stmts': 0, 'calls': 0, 'obligations': 1})
            r['violations'].append({'rule': 'varies', 'file': rel, 'line': line, 'function': '(file)', 'root': '(file)', 'msg': 'the time of the build is in it', 'path': ''})
            res.append(r)
    return res


if __name__ == '__main__':
    import core
    core.load_all(fe.sources())
    rs = determinism({r: core.tu(r) for r in fe.sources()})
    print(len(rs), sum(r['stats']['obligations'] for r in rs))
    for r in rs:
        for v in r['violations']:
            print((v['file'], v['line'], v['function'], v['msg']))
