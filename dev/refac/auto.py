"""auto.py KIND[,KIND] [-f file,...] [-c C01,...] [-o DIR]: edit a copy of
/repo throughout in a way that changes no behaviour, see that it still
compiles (edits that do not are dropped, by function), and run the checks."""
import sys, os, re, json, subprocess
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
CF = ['-std=c99', '-D_POSIX_C_SOURCE=200809L']

GEN = ['-I/repo/_build/' + d for d in ('config', 'lib', 'bin', 'pkgs/core', 'test', 'fbld', '.')]

def ast(root, f):
    r = subprocess.run(['clang-18', '-Xclang', '-ast-dump=json', '-fsyntax-only'] + CF + ['-I%s/%s' % (root, d) for d in ('include', 'lib', 'fbld', 'pkgs', '.')] + GEN + [os.path.join(root, f)], capture_output=True, text=True)
    return json.loads(r.stdout)

def rng(n):
    b = n['range']['begin']; e = n['range']['end']
    if 'expansionLoc' in b or 'spellingLoc' in b: 
        b = b.get('expansionLoc', b)
    if 'expansionLoc' in e or 'spellingLoc' in e:
        return None
    if 'offset' not in b or 'offset' not in e: return None
    return b['offset'], e['offset'] + e['tokLen']

def rng2(n, s):
    """Range with ends in macros allowed (single-token macros)."""
    b = n['range']['begin']; e = n['range']['end']
    b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
    if 'offset' not in b or 'offset' not in e: return None
    x = e['offset'] + e['tokLen']
    return b['offset'], x

def kids(n): return [c for c in n.get('inner', []) if c and c.get('kind')]
def walk(n):
    yield n
    for c in kids(n):
        for x in walk(c): yield x

def functions(t, f):
    """Function definitions of the main file."""
    cur = None
    out = []
    for d in t['inner']:
        l = d.get('loc', {})
        if 'file' in l: cur = l['file']
        elif 'expansionLoc' in l and 'file' in l['expansionLoc']: cur = l['expansionLoc']['file']
        if d.get('kind') == 'FunctionDecl' and any(k.get('kind') == 'CompoundStmt' for k in kids(d)):
            if 'includedFrom' in l: continue
            if cur and not cur.endswith(f): continue
            out.append(d)
    return out

class Ed:
    def __init__(self): self.e = []
    def add(self, a, b, t):
        for x, y, _ in self.e:
            if a < y and x < b: return False
        self.e.append((a, b, t)); return True
    def apply(self, s):
        for a, b, t in sorted(self.e, reverse=True): s = s[:a] + t + s[b:]
        return s

def stmt_end(s, b):
    """End of a statement whose expression ends at b: past the semicolon."""
    m = re.match(r'\s*\)*\s*;', s[b:])
    return b + m.end() if m else None

def has(n, *ks):
    return any(x['kind'] in ks for x in walk(n))

def neg_if(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'IfStmt' or not n.get('hasElse'): continue
        c, t, e = kids(n)[:3]
        rc, rt, re_ = rng2(c, s), rng2(t, s), rng2(e, s)
        if None in (rc, rt, re_) or t['kind'] != 'CompoundStmt' or e['kind'] != 'CompoundStmt': continue
        a = s.index('(', rng2(n, s)[0])
        cond = s[a:rt[0]].rstrip()
        ed.add(rng2(n, s)[0], re_[1], 'if (!%s) %s else %s' % (cond, s[re_[0]:re_[1]], s[rt[0]:rt[1]]))

def for_while(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'ForStmt': continue
        body = n['inner'][-1]
        if body.get('kind') != 'CompoundStmt' or has(body, 'ContinueStmt'): continue
        r, rb = rng2(n, s), rng2(body, s)
        h = s[r[0]:rb[0]]
        m = re.match(r'for \((.*?);(.*?);(.*)\)\s*$', h, re.S)
        if not m: continue
        ed.add(r[0], rb[1], '{ %s; while (%s) { %s %s; } }' % (m.group(1), m.group(2).strip() or 'true', s[rb[0]:rb[1]], m.group(3)))

def for_while_in(d, s, ed):
    # innermost loops
    for n in walk(d):
        if n['kind'] == 'ForStmt' and not any(x['kind'] == 'ForStmt' for c in kids(n) for x in walk(c)):
            for_while({'kind': 'X', 'inner': [n]}, s, ed)

def rettype(d):
    return re.match(r'([^(]*?)\s*\(', d['type']['qualType']).group(1)

def ret_temp(d, s, ed):
    T = rettype(d)
    if T == 'void': return
    i = 0
    for n in walk(d):
        if n['kind'] != 'ReturnStmt' or not kids(n): continue
        r = rng2(n, s)
        if not r: continue
        e = s.index(';', r[1] - 1) if s[r[1]-1] != ';' else r[1] - 1
        i += 1
        x = s[r[0] + 6:e].strip()
        if re.match(r'\w+$', x): continue
        ed.add(r[0], e + 1, '{ %s result_%d = %s; return result_%d; }' % (T, i, x, i))

def null_cmp(d, s, ed):
    a, b = rng2(d, s)
    for m in re.finditer(r'(?<![\w>.\])])(\*?\w+(?:(?:->|\.)\w+|\[\w+\])*) (==|!=) NULL\b', s[a:b]):
        ed.add(a + m.start(), a + m.end(), ('!' + m.group(1)) if m.group(2) == '==' else '!!' + m.group(1))

def yoda(d, s, ed):
    a, b = rng2(d, s)
    for m in re.finditer(r'(?<![\w>.\])])(\*?\w+(?:(?:->|\.)\w+|\[\w+\])*) (==|!=|<|>|<=|>=) ([A-Z_0-9]+|\w+(?:(?:->|\.)\w+|\[\w+\])*)(?![\w(\[>.-])', s[a:b]):
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(m.group(2), m.group(2))
        ed.add(a + m.start(), a + m.end(), '%s %s %s' % (m.group(3), op, m.group(1)))

def hoist_bound(d, s, ed):
    a, b = rng2(d, s)
    for m in re.finditer(r'for \(size_t (\w+) = 0; \1 < ([\w>.\[\]-]+); (\+\+\1|\1\+\+)\)', s[a:b]):
        ed.add(a + m.start(), a + m.end(), 'for (size_t %s = 0, n_%s = %s; %s < n_%s; %s += 1)' % (m.group(1), m.group(1), m.group(2), m.group(1), m.group(1), m.group(1)))

def cond_var(d, s, ed):
    k = 0
    for n in walk(d):
        if n['kind'] != 'CompoundStmt': continue
        for c in kids(n):
            if c['kind'] != 'IfStmt': continue
            t = kids(c)[1]
            r, rt = rng2(c, s), rng2(t, s)
            if not r or not rt: continue
            a = s.index('(', r[0])
            k += 1
            ed.add(r[0], rt[0], 'bool cond_%d = %s; if (cond_%d) ' % (k, s[a:rt[0]].strip(), k))

def and_nest(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'IfStmt' or n.get('hasElse'): continue
        c, t = kids(n)[:2]
        if c['kind'] != 'BinaryOperator' or c.get('opcode') != '&&' or t['kind'] != 'CompoundStmt': continue
        l, rr = kids(c)
        r, rt, rl, r2 = rng2(n, s), rng2(t, s), rng2(l, s), rng2(rr, s)
        if None in (r, rt, rl, r2): continue
        a = s.index('(', r[0])
        ed.add(r[0], rt[0], 'if (%s) if (%s) ' % (s[a+1:r2[0]].rstrip()[:-2].strip(), s[r2[0]:rt[0]].rstrip()[:-1]))

def ends(n):
    ks = kids(n)
    if n['kind'] == 'CompoundStmt': return bool(ks) and ends(ks[-1])
    return n['kind'] in ('ReturnStmt',)

def else_rest(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'CompoundStmt': continue
        ks = kids(n)
        for i, c in enumerate(ks[:-1]):
            if c['kind'] == 'IfStmt' and not c.get('hasElse') and ends(kids(c)[1]) and not any(k['kind'] in ('CaseStmt', 'LabelStmt', 'DefaultStmt') for k in ks[i+1:]):
                r, rn = rng2(c, s), rng2(n, s)
                if not r or not rn or s[rn[1]-1] != '}' or s[r[1]-1] != '}': continue
                if ed.add(r[1], r[1], ' else {') and ed.add(rn[1]-1, rn[1]-1, '} '): pass
                break

def swap_assign(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'CompoundStmt': continue
        ks = kids(n)
        i = 0
        while i + 1 < len(ks):
            x, y = ks[i], ks[i+1]
            i += 1
            if not all(z['kind'] == 'BinaryOperator' and z.get('opcode') == '=' and kids(z)[0]['kind'] == 'MemberExpr' for z in (x, y)): continue
            rx, ry = rng2(x, s), rng2(y, s)
            if not rx or not ry: continue
            ex, ey = s.find(';', rx[1]), s.find(';', ry[1])
            tx, ty = s[rx[0]:ex], s[ry[0]:ey]
            lx, ly = tx.split(' = ')[0], ty.split(' = ')[0]
            bx, by = re.match(r'\w+', lx), re.match(r'\w+', ly)
            if not bx or not by or bx.group(0) != by.group(0) or lx == ly: continue
            if lx in ty or ly in tx or bx.group(0) in ty[len(ly):] or bx.group(0) in tx[len(lx):]: continue
            if not re.match(r'\s*$', s[ex+1:ry[0]]): continue
            if '(' in tx and '(' in ty: continue
            ed.add(rx[0], ey, ty + ';\n      ' + tx)
            i += 1

def rename(d, s, ed):
    ids = {}
    for n in walk(d):
        if n['kind'] in ('VarDecl', 'ParmVarDecl') and n.get('name') and n.get('storageClass') != 'static': ids[n['id']] = n['name']
    for n in walk(d):
        if n['kind'] in ('VarDecl', 'ParmVarDecl') and n['id'] in ids:
            l = n.get('loc', {})
            if 'offset' in l and s[l['offset']:l['offset']+len(n['name'])] == n['name']:
                pass
            else:
                ids.pop(n['id'], None)
    for n in walk(d):
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('id') in ids:
            b = n['range']['begin']
            if 'expansionLoc' in b:
                sp = b.get('spellingLoc', {})
                # in a macro argument: spelled in the file
                o = sp.get('offset')
                if o is not None and 'file' not in sp and 'includedFrom' not in sp and s[o:o+len(ids[n['referencedDecl']['id']])] == ids[n['referencedDecl']['id']]:
                    continue
                ids.pop(n['referencedDecl']['id'], None)
    for n in walk(d):
        if n['kind'] in ('VarDecl', 'ParmVarDecl') and n['id'] in ids:
            o = n['loc']['offset']; ed.add(o, o + len(n['name']), n['name'] + '_r')
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('id') in ids:
            b = n['range']['begin']; nm = ids[n['referencedDecl']['id']]
            o = b.get('offset')
            if o is None: o = b['spellingLoc']['offset']
            ed.add(o, o + len(nm), nm + '_r')

def case_func(d, s, ed, pre):
    T = rettype(d)
    ps = [k for k in kids(d) if k['kind'] == 'ParmVarDecl']
    if not all(p.get('name') for p in ps): return
    body = [k for k in kids(d) if k['kind'] == 'CompoundStmt'][0]
    sw = [k for k in kids(body) if k['kind'] == 'SwitchStmt']
    locs = [v['name'] for k in kids(body) if k['kind'] == 'DeclStmt' for v in kids(k)]
    if len(sw) != 1: return
    for c in walk(sw[0]):
        if c['kind'] not in ('CaseStmt',): continue
        b = kids(c)[-1]
        if b['kind'] != 'CompoundStmt' or has(b, 'BreakStmt') and any(k['kind'] == 'BreakStmt' for k in kids(b)): continue
        if not ends(b): continue
        r = rng2(b, s)
        t = s[r[0]:r[1]]
        if any(re.search(r'\b%s\b' % l, t) for l in locs): continue
        ic = rng2(c, s)
        nm = 'Case_%s_%s' % (d['name'], re.search(r'case (\w+)', s[ic[0]:r[0]]).group(1))
        plist = ', '.join(s[p['range']['begin']['offset']:p['range']['end']['offset']+p['range']['end']['tokLen']] for p in ps)
        if not ed.add(r[0], r[1], '{ %s%s(%s); %s}' % ('' if T == 'void' else 'return ', nm, ', '.join(p['name'] for p in ps), 'return; ' if T == 'void' else '')): continue
        pre.append((d, 'static %s %s(%s)' % (T, nm, plist), t))

def loop_func(d, s, ed, pre):
    """Bodies of loops become functions (given what they use)."""
    k = 0
    for n in walk(d):
        if n['kind'] not in ('ForStmt', 'WhileStmt'): continue
        b = n['inner'][-1]
        if b.get('kind') != 'CompoundStmt' or has(b, 'BreakStmt', 'ContinueStmt', 'ReturnStmt', 'GotoStmt'): continue
        inside = {x['id'] for x in walk(b) if x['kind'] == 'VarDecl'}
        used = {}
        okk = True
        for x in walk(b):
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl') and x['referencedDecl']['id'] not in inside:
                used[x['referencedDecl']['id']] = (x['referencedDecl']['name'], x['type']['qualType'])
        glob = {x['id'] for x in walk(d) if x['kind'] in ('VarDecl', 'ParmVarDecl')}
        used = {i: v for i, v in used.items() if i in glob}
        # variables changed inside, or whose address is taken, are not passed
        chg = set()
        for x in walk(b):
            if x['kind'] in ('BinaryOperator', 'CompoundAssignOperator') and x.get('opcode', '').endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>='):
                y = kids(x)[0]
                while y['kind'] in ('MemberExpr', 'ParenExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr') and not (y['kind'] == 'MemberExpr' and y.get('isArrow')):
                    y = kids(y)[0]
                if y['kind'] == 'DeclRefExpr': chg.add(y['referencedDecl']['id'])
            if x['kind'] == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&'):
                for y in walk(x):
                    if y['kind'] == 'DeclRefExpr': chg.add(y['referencedDecl']['id'])
        if chg & set(used): continue
        if any('[' in t or '(' in t for _, t in used.values()): continue
        r = rng2(b, s)
        if not r: continue
        t = s[r[0]:r[1]]
        if 'Vector' in t and any(re.search(r'Fble(AppendTo|Extend|Init)\w*\(&?%s\b' % nm, t) and '*' not in ty for nm, ty in used.values()): continue
        k += 1
        nm = 'Body_%s_%d' % (d['name'], k)
        if not used: continue
        if not ed.add(r[0], r[1], '{ %s(%s); }' % (nm, ', '.join(v[0] for v in used.values()))): continue
        pre.append((d, 'static void %s(%s)' % (nm, ', '.join(v[1] + ' ' + v[0] for v in used.values())), t))

def switch_if(d, s, ed):
    for n in walk(d):
        if n['kind'] != 'SwitchStmt': continue
        c, b = kids(n)[:2]
        ks = kids(b)
        if not all(k['kind'] == 'CaseStmt' for k in ks): continue
        arms = []
        good = True
        for k in ks:
            labels = []
            x = k
            while x['kind'] == 'CaseStmt':
                ic = rng2(x, s)
                labels.append(re.match(r"case ([\w']+)", s[ic[0]:]).group(1) if re.match(r"case ([\w']+)", s[ic[0]:]) else None)
                x = kids(x)[-1]
            if x['kind'] != 'CompoundStmt' or None in labels: good = False; break
            xs = kids(x)
            if not xs or xs[-1]['kind'] not in ('ReturnStmt', 'BreakStmt'): good = False; break
            last = xs[-1]
            # breaks that belong to this switch other than the last
            def brk(y, top):
                if y['kind'] == 'BreakStmt': return y is not last
                if y['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt'): return False
                return any(brk(z, False) for z in kids(y))
            if brk(x, True): good = False; break
            r = rng2(x, s)
            t = s[r[0]:r[1]]
            if last['kind'] == 'BreakStmt':
                q = rng2(last, s)
                t = s[r[0]:q[0]] + s[q[1]:r[1]].replace(';', '', 1)
            arms.append((labels, t))
        if not good or not arms: continue
        r, rb = rng2(n, s), rng2(b, s)
        a = s.index('(', r[0])
        cond = s[a:rb[0]].strip()
        ed.add(r[0], rb[1], ' else '.join('if (%s) %s' % (' || '.join('%s == %s' % (cond, l) for l in ls), t) for ls, t in arms))

def arg_temp(d, s, ed):
    """f(a, g(b)); becomes T t = g(b); f(a, t);"""
    k = 0
    for n in walk(d):
        if n['kind'] != 'CompoundStmt': continue
        for c in kids(n):
            if c['kind'] != 'CallExpr': continue
            r = rng(c)
            if not r: continue
            inner = [x for a in kids(c)[1:] for x in [a] if x['kind'] == 'CallExpr' or x['kind'] == 'ImplicitCastExpr' and kids(x)[0]['kind'] == 'CallExpr']
            if len(inner) != 1: continue
            x = inner[0]; x = kids(x)[0] if x['kind'] == 'ImplicitCastExpr' else x
            q = rng(x)
            if not q or not s.startswith(';', r[1]): continue
            k += 1
            ed.add(r[0], r[1], '{ %s arg_%d = %s; %s; }' % (x['type']['qualType'], k, s[q[0]:q[1]], s[r[0]:q[0]] + 'arg_%d' % k + s[q[1]:r[1]]))

def field_local(d, s, ed):
    """The base of a loop's bound gets a name: FbleXV* v = &e->xs; is not easy
    without types; instead `T* t = x->f` for repeated pointer fields."""
    body = [k for k in kids(d) if k['kind'] == 'CompoundStmt'][0]
    ps = {k['id']: k['name'] for k in kids(d) if k['kind'] == 'ParmVarDecl' and k.get('name')}
    uses = {}
    written = set()
    for n in walk(body):
        if n['kind'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('='):
            y = kids(n)[0]
            if y['kind'] == 'MemberExpr': written.add(y.get('name'))
        if n['kind'] == 'UnaryOperator' and n.get('opcode') in ('&', '++', '--'):
            for y in walk(n):
                if y['kind'] == 'MemberExpr': written.add(y.get('name'))
    for n in walk(body):
        if n['kind'] == 'MemberExpr' and n.get('isArrow') and n['type']['qualType'].endswith('*') and n.get('name') not in written:
            x = kids(n)[0]
            if x['kind'] == 'ImplicitCastExpr' and kids(x)[0]['kind'] == 'DeclRefExpr' and kids(x)[0]['referencedDecl']['id'] in ps:
                r = rng(n)
                if r: uses.setdefault(s[r[0]:r[1]], []).append((r, n['type']['qualType']))
    rb = rng2(body, s)
    pre = ''
    return

KINDS = {f.__name__: f for f in (neg_if, for_while, for_while_in, ret_temp, null_cmp, yoda, hoist_bound, cond_var, and_nest, else_rest, swap_assign, rename, case_func, loop_func, switch_if, arg_temp)}

def compiles(root, f):
    r = subprocess.run(['gcc', '-std=c99', '-Wall', '-Werror', '-Wno-unused-parameter', '-D_POSIX_C_SOURCE=200809L', '-fsyntax-only'] + ['-I%s/%s' % (root, d) for d in ('include', 'lib', 'fbld', 'pkgs', '.')] + GEN + [os.path.join(root, f)], capture_output=True, text=True)
    return r.returncode == 0, r.stderr

def edit(root, f, kind, fn):
    p = os.path.join(root, f)
    raw = open(p, 'rb').read()
    s = raw.decode('latin-1')
    n = 0
    names = [d['name'] for d in functions(ast(root, f), f)]
    t = ast(root, f)
    ds = functions(t, f)
    def build(which):
        ed = Ed(); pre = []
        for d in ds:
            if d['name'] not in which: continue
            e = Ed(); q = []
            try:
                fn(d, s, e, q) if kind in ('case_func', 'loop_func') else fn(d, s, e)
            except (KeyError, ValueError, IndexError, AttributeError): continue
            for x in e.e: ed.add(*x)
            pre += q
        out = ed
        if pre:
            # functions go after the file's last declaration: prototypes before the first function, bodies at the end
            first = None
            for d in ds:
                o = rng2(d, s)[0]
                # the comment above
                first = o if first is None else min(first, o)
            c = s.rfind('/**', 0, first)
            at = c if c >= 0 and '*/' in s[c:first] and not re.search(r'[;}]', s[s.index('*/', c):first]) else first
            ed.e.append((at, at, '\n'.join(sig + ';' for _, sig, _ in pre) + '\n\n'))
            return len(ed.e), ed.apply(s) + '\n' + '\n\n'.join(sig + ' ' + b for _, sig, b in pre) + '\n'
        return len(ed.e), ed.apply(s)
    which = set(names)
    n, new = build(which)
    if n == 0: return 0, 0
    open(p, 'wb').write(new.encode('latin-1'))
    okk, err = compiles(root, f)
    bad = 0
    if not okk:
        good = set()
        for x in names:
            m, new = build({x})
            if m == 0: continue
            open(p, 'wb').write(new.encode('latin-1'))
            if compiles(root, f)[0]: good.add(x)
            else: bad += 1
        n, new = build(good)
        open(p, 'wb').write(new.encode('latin-1'))
        if n == 0 or not compiles(root, f)[0]:
            open(p, 'wb').write(raw); return 0, bad
    return n, bad

def main():
    a = sys.argv[1:]
    kinds = a[0].split(',')
    only = a[a.index('-f')+1].split(',') if '-f' in a else None
    checks = a[a.index('-c')+1].split(',') if '-c' in a else None
    D = a[a.index('-o')+1] if '-o' in a else '/tmp/auto.%s' % kinds[0]
    subprocess.run(['rm', '-rf', D]); subprocess.run(['git', 'clone', '-q', '/repo', D], check=True)
    files = subprocess.run(['git', '-C', D, 'ls-files', '*.c'], capture_output=True, text=True).stdout.split()
    files = [f for f in files if f.split('/')[0] in ('lib', 'fbld', 'bin', 'pkgs') and 'app' not in f and 'pkgs/' not in f or f.startswith('pkgs/core')]
    for k in kinds:
        tot = 0; drop = 0
        for f in files:
            if only and f not in only: continue
            n, b = edit(D, f, k, KINDS[k])
            tot += n; drop += b
        print(k, 'edits', tot, 'functions dropped', drop, flush=True)
    if '-n' in a: return
    m = json.load(open(V + '/MANIFEST.json'))
    env = dict(os.environ, FBLE_REPO=D)
    import time
    for c in checks or [x['property'] for x in m['checks']]:
        t = time.time()
        r = subprocess.run(['python3', 'sa/run.py', c], cwd=V, env=env, capture_output=True, text=True)
        if r.returncode:
            print(c, r.returncode, '%.0fs' % (time.time() - t), flush=True)
            ls = [l for l in r.stdout.split('\n') if l.strip() and not l.startswith(('KNOWN', 'VIOL'))]
            for l in ls[:14]: print('    ', l[:260])
            if r.stderr: print('    ', r.stderr[-400:])
        else:
            print(c, 'ok', '%.0fs' % (time.time() - t), r.stdout.strip().split('\n')[-1][:100], flush=True)
    if '-k' not in a: subprocess.run(['rm', '-rf', D])
if __name__ == '__main__': main()
