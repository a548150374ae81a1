"""Frontend: C sources of /repo -> compact typed syntax trees.

The resolved program comes from clang's JSON AST (semantic analysis done, all
implicit conversions and macro expansions explicit).  The tree is compacted
into N nodes; record layouts, enums, typedef-resolved types, functions and
globals are collected per translation unit.
"""
import json, os, re, subprocess, sys, tempfile, shutil
import xml.etree.ElementTree as ET

REPO = os.environ.get('FBLE_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang') if os.path.exists(c)), 'clang')


class Broken(Exception):
    """Analysis broken: neither a pass nor a violation."""


class N(object):
    __slots__ = ('k', 'c', 'ty', 'line', 'file', 'name', 'ref', 'op', 'val', 'x', 'id')

    def __init__(self, k):
        self.k = k; self.c = (); self.ty = None; self.line = 0; self.file = None
        self.name = None; self.ref = None; self.op = None; self.val = None; self.x = None
        self.id = None

    def __repr__(self):
        return '<%s %s:%s %s>' % (self.k, self.file, self.line, self.name or self.op or self.val or '')


USAGE_HEADERS = ['fble-compile', 'fble-deps', 'fble-disassemble', 'fble-perf-profile', 'fble-stdio',
                 'fble-app', 'fble-test', 'fble-mem-test', 'fble-profiles-test', 'fble-profile-test', 'fbld']


RULES = 'lib/parse.rules'     # the actions of the grammar, each as a function
GENERATED = ('lib/parse.tab.c', 'lib/parse.rules.c')


def sources():
    """Every hand-written C source that the build covers, plus the grammar."""
    out = []
    for d in ('lib', 'fbld', 'bin', 'test', 'pkgs/core'):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') or f == 'parse.y':
                out.append(d + '/' + f)
    return out


class Gen(object):
    """Scratch directory with the generated inputs of the build."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='fble-sa-')
        with open(self.dir + '/config.h', 'w') as f:
            f.write('#define FBLE_CONFIG_DATADIR "/usr/share/fble"\n'
                    '#define FBLE_CONFIG_SRCDIR "/src"\n#define FBLE_CONFIG_BUILDDIR "/build"\n')
        names = set(USAGE_HEADERS)
        for s in sources():
            if s.endswith('.c'):
                for m in re.findall(r'#include "([\w.-]+\.usage\.h)"', open(os.path.join(REPO, s), errors='replace').read()):
                    names.add(m[:-len('.usage.h')])
        for n in names:
            with open('%s/%s.usage.h' % (self.dir, n), 'w') as f:
                f.write('static const char* fbldUsageHelpText = "usage";\n')
        self._bison = False

    def bison(self):
        if not self._bison:
            r = subprocess.run(['bison', '--xml=' + self.dir + '/parse.xml', '-o', self.dir + '/parse.tab.c', '-d',
                                REPO + '/lib/parse.y'], capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken('bison failed: ' + r.stderr[:2000])
            self._bison = True
        return self.dir + '/parse.tab.c'

    def rules(self):
        """The grammar with each of its actions made a function of its own,
        Rule_<number>, whose parameters are what its symbols stand for."""
        text = open(self.bison(), errors='replace').read()
        out = [text, '\n#undef YYERROR\n#define YYERROR return 1\n']
        self.productions()
        for no, body, line in re.findall(r'^  case (\d+): /\*.*\*/\n((?:.*\n)*?)    break;\n()', text, re.M):
            r = self.prods.get(int(no) - 1)
            if r is None or not re.match(r'#line \d+ ".*parse\.y"', body):
                continue
            n = len(r[1])
            body = re.sub(r'^#line \d+ "parse.tab.c"$', '', body, flags=re.M)
            body = re.sub(r'\byyvsp\[(-?\d+)\]', lambda m: '(*s%d)' % (int(m.group(1)) + n), body)
            body = re.sub(r'\byylsp\[(-?\d+)\]', lambda m: '(*at%d)' % (int(m.group(1)) + n), body)
            body = re.sub(r'\byyval\b', '(*ss)', body)
            body = re.sub(r'\byyloc\b', '(*at)', body)
            out.append('static int Rule_%s(YYSTYPE* ss, YYLTYPE* at, FbleExpr** result, FbleModulePathV* deps%s)\n{\n%s%s  return 0;\n}\n' % (
                no, ''.join(', YYSTYPE* s%d, YYLTYPE* at%d' % (i, i) for i in range(1, n + 1)),
                # what bison does before each action
                '(*ss).%s = (*s1).%s;\n' % (r[2], r[2]) if r[2] and r[2] == r[3] else '', body))
        for no, r in self.prods.items():
            if no and not any('int Rule_%d(' % (no + 1) in x for x in out):
                n = len(r[1])
                out.append('static int Rule_%d(YYSTYPE* ss, YYLTYPE* at, FbleExpr** result, FbleModulePathV* deps%s)\n{\n%s  return 0;\n}\n' % (
                    no + 1, ''.join(', YYSTYPE* s%d, YYLTYPE* at%d' % (i, i) for i in range(1, n + 1)), '(*ss).%s = (*s1).%s;\n' % (r[2], r[2]) if n and r[2] else ''))
        with open(self.dir + '/parse.rules.c', 'w') as f:
            f.write(''.join(out))
        return self.dir + '/parse.rules.c'

    def productions(self):
        """{number: (left hand side, [right hand side], type of the one, of the first of the other)}"""
        self.bison()
        self.prods = {}
        g = ET.parse(self.dir + '/parse.xml').getroot().find('grammar')
        types = {s.get('name'): s.get('type') for part in ('terminals', 'nonterminals') for s in g.find(part)}
        self.types = types
        for r in g.find('rules'):
            lhs, rhs = r.find('lhs').text, [x.text for x in r.find('rhs').findall('symbol')]
            self.prods[int(r.get('number'))] = (lhs, rhs, types.get(lhs), types.get(rhs[0]) if rhs else None)
        return self.prods

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def cflags(rel, gen):
    d = os.path.dirname(rel)
    return ['-std=c99', '-D_DEFAULT_SOURCE'][:1] + ['-I', REPO + '/include', '-I', REPO + '/' + d, '-I', REPO + '/lib',
            '-I', REPO + '/pkgs/core', '-I', REPO + '/pkgs/app', '-I', gen.dir]


KEEP_SYS = set()
SKIP_EXPR = {'ParenExpr', 'ConstantExpr', 'FullComment'}


def _qt(t):
    if not t:
        return None
    return t.get('desugaredQualType') or t.get('qualType')


class TU(object):
    """One translation unit."""

    def __init__(self, rel, gen):
        self.rel = rel
        self.records = {}      # record id -> Record
        self.rec_by_name = {}  # 'struct X' / typedef name -> Record
        self.enums = {}        # enum name/id -> [(const, value)]
        self.enum_of = {}      # constant name -> enum key
        self.enum_val = {}     # constant name -> value
        self.typedefs = {}     # name -> (qualType, desugared)
        self.functions = {}    # name -> Function (with bodies only)
        self.protos = {}       # name -> (type, [param types], ret)
        self.globals = {}      # name -> N(VarDecl)
        src = gen.rules() if rel == RULES else gen.bison() if rel.endswith('.y') else os.path.join(REPO, rel)
        cmd = [CLANG] + cflags(rel, gen) + ['-Wno-everything', '-fsyntax-only', '-Xclang', '-ast-dump=json', src]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0:
            raise Broken('clang failed on %s: %s' % (rel, r.stderr.decode(errors='replace')[:2000]))
        data = json.loads(r.stdout)
        self.file = None
        self.line = 0
        self.gen = gen
        self.ids = {}
        self.linemap = None
        if rel.endswith('.y') or rel == RULES:
            # generated line -> line of the grammar, from the #line directives
            self.linemap, cur = [None], None
            for l in open(src, errors='replace').read().split('\n'):
                m = re.match(r'#line (\d+) "(.*)"', l)
                self.linemap.append(('lib/parse.y', cur) if cur is not None else None)
                if cur is not None:
                    cur += 1
                if m:
                    cur = int(m.group(1)) if m.group(2).endswith('parse.y') else None
        self._load(data)

    def _id(self, x):
        """Clang's node ids are addresses; number them in order instead."""
        if x is None:
            return None
        r = self.ids.get(x)
        if r is None:
            r = 'n%06d' % len(self.ids)
            self.ids[x] = r
        return r

    # -- location tracking -------------------------------------------------
    def _loc1(self, l):
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']
        return (self.file, self.line)

    def _loc(self, l):
        if not l:
            return None
        if 'spellingLoc' in l or 'expansionLoc' in l:
            res = None
            for k, v in l.items():
                if k == 'spellingLoc':
                    if v:
                        self._loc1(v)
                elif k == 'expansionLoc':
                    if v:
                        res = self._loc1(v)
            return res
        if 'offset' not in l and 'line' not in l and 'file' not in l:
            return None
        return self._loc1(l)

    def _locs(self, d):
        """Visit loc and range in print order; returns (file,line) to report."""
        res = None
        if 'loc' in d:
            res = self._loc(d['loc'])
        if 'range' in d:
            b = self._loc(d['range'].get('begin'))
            self._loc(d['range'].get('end'))
            if res is None:
                res = b
        return res

    def rp(self, f):
        if f is None:
            return None
        if f.startswith(REPO + '/'):
            return f[len(REPO) + 1:]
        if f.startswith(self.gen.dir):
            return 'lib/' + os.path.basename(f)
        return f

    # -- top level -----------------------------------------------------------
    def _load(self, data):
        for d in data.get('inner', ()):
            k = d['kind']
            if k == 'FunctionDecl':
                self._function(d)
            elif k == 'RecordDecl':
                self._record(d)
            elif k == 'EnumDecl':
                self._enum(d)
            elif k == 'TypedefDecl':
                self._locs(d)
                self.typedefs[d['name']] = (d['type']['qualType'], _qt(d['type']))
                self._skip(d)
                rid = self._owned_id(d)
                if rid and rid in self.records:
                    rec = self.records[rid]
                    self.rec_by_name[d['name']] = rec
                    if not rec.name:
                        rec.name = d['name']
                if rid and rid in self.enums:
                    self.enums[d['name']] = self.enums[rid]
                    for c, _ in self.enums[rid]:
                        self.enum_of[c] = d['name']
            elif k == 'VarDecl':
                n = self._node(d)
                self.globals[d['name']] = n
            else:
                self._visit_locs(d)

    def _owned_id(self, d):
        for i in d.get('inner', ()):
            if 'decl' in i and 'id' in i['decl']:
                return i['decl']['id']
            if 'ownedTagDecl' in i:
                return i['ownedTagDecl']['id']
            r = self._owned_id(i)
            if r:
                return r
        return None

    def _visit_locs(self, d):
        self._locs(d)
        self._skip(d)

    def _skip(self, d):
        for i in d.get('inner', ()):
            if i:
                self._visit_locs(i)

    def _record(self, d):
        pos = self._locs(d)
        rec = Record(d.get('name'), d.get('tagUsed'), d['id'])
        rec.complete = d.get('completeDefinition', False)
        rec.file = self.rp(pos[0]) if pos else None
        rec.line = pos[1] if pos else 0
        last = None
        for i in d.get('inner', ()):
            if i['kind'] == 'RecordDecl':
                last = self._record(i)
            elif i['kind'] == 'EnumDecl':
                self._enum(i)
            elif i['kind'] == 'FieldDecl':
                self._locs(i)
                ty = _qt(i['type'])
                rec.fields.append((i.get('name') or '', ty, i['type']['qualType']))
                if last is not None and ('anonymous' in ty or 'unnamed' in ty):
                    base = re.sub(r'[\s*]*(\[\d*\])*$', '', ty)
                    self.rec_by_name[base] = last
                self._skip(i)
            else:
                self._visit_locs(i)
        self.records[d['id']] = rec
        if d.get('previousDecl'):
            prev = self.records.get(d['previousDecl'])
            if prev is not None and rec.complete:
                # complete the earlier incomplete one so typedef aliases see it
                prev.fields = rec.fields; prev.complete = True; prev.file = rec.file; prev.line = rec.line
                rec = prev
                self.records[d['id']] = rec
        if d.get('name'):
            key = (d.get('tagUsed') or 'struct') + ' ' + d['name']
            if rec.complete or key not in self.rec_by_name:
                self.rec_by_name[key] = rec
        return rec

    def _enum(self, d):
        self._locs(d)
        cs = []
        nxt = 0
        for i in d.get('inner', ()):
            if i['kind'] == 'EnumConstantDecl':
                self._locs(i)
                v = None
                for j in i.get('inner', ()):
                    if j.get('value') is not None and v is None:
                        try:
                            v = int(j['value'])
                        except ValueError:
                            pass
                self._skip(i)
                if v is None:
                    v = nxt
                nxt = v + 1
                cs.append((i['name'], v))
            else:
                self._visit_locs(i)
        self.enums[d['id']] = cs
        nm = d.get('name') or d['id']
        if d.get('name'):
            self.enums['enum ' + d['name']] = cs
        for c, v in cs:
            self.enum_of[c] = d['id']
            self.enum_val[c] = v

    def _function(self, d):
        pos = self._locs(d)
        f = Function(d['name'])
        f.file = self.rp(pos[0]) if pos else None
        f.line = pos[1] if pos else 0
        if self.linemap is not None and f.file in GENERATED and f.line < len(self.linemap) and self.linemap[f.line]:
            f.file, f.line = self.linemap[f.line]
        f.static = d.get('storageClass') == 'static'
        f.type = d['type']['qualType']
        f.ret = f.type[:f.type.index('(')].strip() if '(' in f.type else f.type
        f.noreturn = 'noreturn' in f.type
        body = None
        for i in d.get('inner', ()):
            if i['kind'] == 'ParmVarDecl':
                self._locs(i)
                f.params.append((i.get('name') or '', _qt(i['type']), self._id(i['id']), i['type']['qualType']))
                self._skip(i)
            elif i['kind'] == 'CompoundStmt':
                body = self._node(i)
            else:
                if 'NoReturn' in i['kind']:
                    f.noreturn = True
                self._visit_locs(i)
        f.variadic = d.get('variadic', False)
        f.tu = self
        prev = self.protos.get(f.name)
        if prev is not None and (prev.noreturn or prev.static):
            f.noreturn = f.noreturn or prev.noreturn
            f.static = f.static or prev.static
        self.protos[f.name] = f
        if body is not None:
            f.body = body
            self.functions[f.name] = f

    # -- statements and expressions -------------------------------------------
    def _node(self, d):
        k = d.get('kind')
        pos = self._locs(d)
        n = N(k)
        if pos:
            n.file = self.rp(pos[0]); n.line = pos[1]
            if self.linemap is not None and n.file in GENERATED and n.line < len(self.linemap) and self.linemap[n.line]:
                n.file, n.line = self.linemap[n.line]
        t = d.get('type')
        if t:
            n.ty = _qt(t)
            n.x = t.get('qualType')
        n.name = d.get('name')
        n.op = d.get('opcode') or d.get('castKind')
        n.id = self._id(d.get('id'))
        if 'value' in d:
            n.val = d['value']
        if k == 'DeclRefExpr':
            rd = d.get('referencedDecl', {})
            n.ref = self._id(rd.get('id')); n.name = rd.get('name'); n.val = rd.get('kind')
        elif k == 'MemberExpr':
            n.val = d.get('isArrow', False)
            n.ref = self._id(d.get('referencedMemberDecl'))
        elif k == 'UnaryOperator':
            n.val = d.get('isPostfix', False)
        elif k == 'UnaryExprOrTypeTraitExpr':
            n.name = d.get('name')
            n.x = _qt(d.get('argType')) if d.get('argType') else None
        elif k == 'IfStmt':
            n.val = d.get('hasElse', False)
        elif k in ('GotoStmt',):
            n.ref = self._id(d.get('targetLabelDeclId'))
        elif k == 'LabelStmt':
            n.ref = self._id(d.get('declId'))
        elif k == 'VarDecl':
            n.op = d.get('storageClass')
        elif k in ('CompoundAssignOperator', 'BinaryOperator'):
            pass
        ch = []
        if 'array_filler' in d and k == 'InitListExpr':
            for i in d['array_filler']:
                if i:
                    c = self._node(i)
                    if c.k != 'ImplicitValueInitExpr':
                        ch.append(c)
            n.op = 'filler'
        for i in d.get('inner', ()):
            if not i:
                ch.append(None)
                continue
            ik = i.get('kind', '')
            if ik.endswith('Comment') or ik.endswith('Attr'):
                self._visit_locs(i)
                continue
            if k == 'DeclStmt' and ik == 'RecordDecl':
                self._record(i); continue
            if k == 'DeclStmt' and ik == 'TypedefDecl':
                self._locs(i)
                self.typedefs[i['name']] = (i['type']['qualType'], _qt(i['type']))
                self._skip(i)
                rid = self._owned_id(i)
                if rid and rid in self.records:
                    self.rec_by_name[i['name']] = self.records[rid]
                continue
            if k == 'DeclStmt' and ik == 'EnumDecl':
                self._enum(i); continue
            ch.append(self._node(i))
        if k in ('ParenExpr', 'ConstantExpr'):
            return ch[0]
        n.c = ch
        return n


class Record(object):
    def __init__(self, name, tag, id):
        self.name = name; self.tag = tag or 'struct'; self.id = id
        self.fields = []; self.complete = False; self.file = None; self.line = 0

    def __repr__(self):
        return 'Record(%s)' % self.name


class Function(object):
    def __init__(self, name):
        self.name = name; self.params = []; self.body = None; self.file = None; self.line = 0
        self.static = False; self.type = ''; self.ret = ''; self.noreturn = False; self.variadic = False
        self.tu = None

    def __repr__(self):
        return 'Function(%s)' % self.name


def walk(n):
    """Pre-order walk over N nodes."""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        if x.c:
            st.extend(reversed(x.c))


def callee(n):
    """Name of the directly called function of a CallExpr, or None."""
    f = n.c[0]
    while f is not None and f.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'UnaryOperator'):
        f = f.c[0]
    if f is not None and f.k == 'DeclRefExpr' and f.val == 'FunctionDecl':
        return f.name
    return None


if __name__ == '__main__':
    import time
    g = Gen()
    try:
        for s in (sys.argv[1:] or sources()):
            t = time.time()
            tu = TU(s, g)
            fs = [f for f in tu.functions.values() if f.file and not f.file.startswith('/')]
            print('%s: %d functions, %d records, %.2fs' % (s, len(fs), len(tu.records), time.time() - t))
    finally:
        g.close()
