"""Monitors: finite-state observers that ride along with the interpreter."""
from engine import SV, NULL, DC, UN
from own import Hook

# -- C08: a stage fails if and only if something has been reported ------------
NULLF = 'null'      # fails by returning nothing
FALSEF = 'false'    # fails by returning false
NONZERO = 'nonzero'

STAGES = {
    'lib/typecheck.c': {'TypeCheckExpr': NULLF, 'TypeCheckExprWithCleaner': NULLF, 'TypeCheckType': NULLF, 'TypeCheckTypeWithCleaner': NULLF,
                        'TypeCheckExprForType': NULLF, 'PolyApply': NULLF, 'TypeInferArgs': NULLF, 'CheckNameSpace': FALSEF},
    'lib/load.c': {'Find': NULLF},
    'fbld/eval.c': {'HeadOf': FALSEF, 'TailOf': FALSEF, 'Eq': FALSEF, 'Eval': FALSEF},
    'fbld/parse.c': {'ParseInlineCommand': NULLF, 'ParseInline': NULLF, 'ParseBlockCommand': NULLF, 'ParseBlock': NULLF,
                     'ParseInlineArgs': FALSEF},
    'fbld/markup.c': {'TextOfMarkup': FALSEF},
    'lib/parse.y': {'yyparse': NONZERO},
}
STAGES['lib/typecheck.c']['TypeCheckModule'] = NULLF
ANYWHERE = {'FbleTypeCheckModule': NULLF, 'FbleTypeCheckProgram': NULLF, 'FbleParse': NULLF, 'FbleParseModulePath': NULLF, 'FbleLoad': NULLF,
            'FbleCompileModule': NULLF, 'FbleCompileProgram': NULLF, 'FbleLink': NULLF, 'FbldParse': NULLF, 'FbldEval': NULLF,
            'FbldTextOfMarkup': NULLF, 'FbldPrintMarkup': FALSEF}
# what is absent at entry has been reported before
ENTRY = {'HeadOf': [(0, ())], 'TailOf': [(0, ())], 'FbldTextOfMarkup': [(0, ())],
         'PolyApply': [(1, ('Tc.type',)), (2, ())], 'TypeInferArgs': [(4, ('Tc.type',))]}
# what these return when nothing has failed is decided by a loop or a parser
# they have no view of: only that they do not succeed after an error is checked
TRUSTED = {'FbleTypeCheckProgram', 'FbleParseModulePath', 'FbldEval'}
REPORTS = {'FbleReportError', 'FbldReportError', 'ReportError', 'yyerror'}
# a message on stderr is a diagnostic except where it only continues one
STDERR = {'lib/load.c', 'lib/parse.y', 'lib/arg-parse.c', 'fbld/parse.c', 'lib/link.c'}


def classify(v, kind):
    """-> True (failed) | False | None (cannot tell)"""
    if isinstance(v, SV):
        vals = [x for p, x in v.m.items() if p[-1].endswith('.type')] or list(v.m.values())
        if any(x == NULL for x in vals):
            return True
        return False if all(x[0] == 'p' for x in vals) else None
    if kind == NULLF:
        if v == NULL:
            return True
        return False if v[0] in ('p', 'f', 'str') else None
    if v[0] == 'i':
        return (v[1] == 0) == (kind == FALSEF)
    return None


def to_stderr(n):
    """The call prints to stderr."""
    from fe import walk
    if len(n.c) < 2 or n.c[1] is None:
        return False
    return any(x is not None and x.k == 'DeclRefExpr' and x.name == 'stderr' for x in walk(n.c[1]))


class Diag(Hook):
    rep = True

    def __init__(self, rel, root):
        self.rel = rel; self.root = root
        self.stages = dict(ANYWHERE)
        self.stages.update(STAGES.get(rel, {}))

    def on_start(self, eng, st, f, frame):
        for j, (i, p) in enumerate(ENTRY.get(self.root, ())):
            if i < len(f.params):
                v = st.store.get((frame[f.params[i][2]], p))
                if v is not None:
                    st.store[(('L', 0, '$entry%d' % j), ())] = v

    def on_call(self, eng, st, name, vs, n):
        if name in REPORTS or (name == 'fprintf' and self.rel in STDERR and to_stderr(n)):
            st.flags['rep'] = 1
        return None

    def after_call(self, eng, name, vs, n, res):
        kind = self.stages.get(name)
        if kind is None:
            return res
        eng.stats['stagecalls'] = eng.stats.get('stagecalls', 0) + 1
        out = []
        for st, v in res:
            v = eng.cur_val(st, v)
            c = classify(v, kind)
            if c is None and not isinstance(v, SV) and v[0] == 's':
                nul, non = eng.split_null(st, v, n)
                for s in nul:
                    if kind != NONZERO:
                        s.flags['rep'] = 1
                    out.append((s, NULL))
                for s, w in non:
                    if kind == NONZERO:
                        s.flags['rep'] = 1
                    out.append((s, w))
                continue
            if c:
                st.flags['rep'] = 1
            out.append((st, v))
        for i, p in ENTRY.get(name, ()):
            a = vs[i] if i < len(vs) else DC
            a = a.m.get(p, DC) if isinstance(a, SV) else a
            out = [(st, v) for st, v in out if eng.cur_val(st, a) != NULL or classify(v, kind)]
        if eng.nonrep and kind != NONZERO:
            ok = [x for x in out if not classify(x[1], kind)]
            out = ok or out
        return out

    def before_return(self, eng, st, v, node):
        kind = self.stages.get(self.root)
        if kind is None or self.root == 'yyparse':
            return
        for j in range(len(ENTRY.get(self.root, ()))):
            if eng.cur_val(st, st.store.get((('L', 0, '$entry%d' % j), ()), DC)) == NULL:
                st.flags['rep'] = 1
        c = classify(v, kind)
        if c is None or (c and self.root in TRUSTED):
            return
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        if c and not st.flags.get('rep'):
            eng.viol(st, 'silent-rejection', node, '%s fails on this path although nothing has been reported' % self.root, key='silent')
        if not c and st.flags.get('rep'):
            eng.viol(st, 'accepted-after-error', node, '%s succeeds on this path although an error has been reported' % self.root, key='accepted')


# -- C14: exit status ----------------------------------------------------------
MAINS = {'main', 'FbleStdioMain', 'FbleTestMain', 'FbleMemTestMain', 'FbleProfilesTestMain', 'FbleAppMain'}
ARGPARSE = {'FbleParseBoolArg': (2, 4), 'FbleParseStringArg': (2, 4), 'FbleParseInvalidArg': (0, 2), 'FbleParseModuleArg': (1, 3)}
RESULTS = {'FbleLoad', 'FbleCompileModule', 'FbleCompileProgram', 'FbleLink', 'FbleEval', 'FbleApply', 'FbleStdio', 'FbleFindPackage', 'FbleParseModulePath',
           'FbldParse', 'FbldEval', 'fopen'}
# a documented exception: dependencies are still listed if loading fails
TOLERATED = {('bin/fble-deps.c', 'FbleLoad')}
# options that ask for something, and what produces it
ASKED = {'-c': ('FbleGenerateAArch64', 'FbleGenerateC'), '--compile': ('FbleGenerateAArch64', 'FbleGenerateC'),
         '-e': ('FbleGenerateAArch64Export', 'FbleGenerateCExport'), '--export': ('FbleGenerateAArch64Export', 'FbleGenerateCExport'),
         '--main': ('FbleGenerateAArch64Main', 'FbleGenerateCMain'), '--profile': ('FbleGenerateProfileReport',),
         '-v': ('FblePrintVersion',), '--version': ('FblePrintVersion',)}
OUTPUT = {x for v in ASKED.values() for x in v} | {'FbleDisassemble', 'FbleSaveBuildDeps', 'FbldPrintMarkup', 'FbleEval', 'FbleStdio', 'FbleApply'}


def words(n):
    """The literal text of a message holds a word."""
    import re
    from fe import walk
    for a in n.c[2:3]:
        for x in walk(a) if a is not None else ():
            if x.k == 'StringLiteral':
                return re.search('[A-Za-z]{2}', re.sub('%[-+ #0-9.*]*[a-zA-Z]+', '', x.val or '')) is not None
    return True


class Exit(Hook):
    def __init__(self, rel, root):
        self.rel = rel; self.root = root

    def on_start(self, eng, st, f, frame):
        if self.root not in ARGPARSE:
            return
        argc, err = ARGPARSE[self.root]
        from fe import N
        for i, nm in ((err, 'err'), (argc, 'argc')):
            if i >= len(f.params):
                return
            v = st.store.get((frame[f.params[i][2]], ()))
            for s, loc in eng.deref(st, v, N('entry')):
                x = ('i', 0) if nm == 'err' else eng.newsym(st, ('int', 'int'), neq=frozenset([0]))
                st.store[loc] = x
                st.flags['$' + nm] = loc
                if nm == 'argc':
                    st.store[(('L', 0, '$argc'), ())] = x

    def on_call(self, eng, st, name, vs, n):
        if name == 'fprintf' and to_stderr(n) and words(n):
            st.flags.setdefault('rep', 'what a message reports')
        if name in ('fprintf', 'printf') and self.root in MAINS and not to_stderr(n):
            st.flags['help'] = 1
        if name in OUTPUT:
            st.flags['out:' + name] = 1
        return None

    def after_call(self, eng, name, vs, n, res):
        if name in ARGPARSE and self.root not in ARGPARSE:
            o = None
            for a in n.c[1:2]:
                o = literal(a)
            out = []
            for st, v in res:
                err = vs[ARGPARSE[name][1]] if len(vs) > ARGPARSE[name][1] else DC
                if v == ('i', 1) and err[0] == 'p':
                    e = eng.cur_val(st, st.store.get(err[1], DC))
                    if e == ('i', 1):
                        st.flags.setdefault('rep', name)
                    elif o in ASKED:
                        st.flags['ask:' + o] = 1
                out.append((st, v))
            return out
        if name in ARGPARSE:
            for st, v in res:
                err = vs[ARGPARSE[name][1]] if len(vs) > ARGPARSE[name][1] else DC
                if v == ('i', 1) and err[0] == 'p' and eng.cur_val(st, st.store.get(err[1], DC)) == ('i', 1):
                    st.flags.setdefault('rep', name)
            return res
        if (name in RESULTS or name == 'FbldPrintMarkup') and (self.rel, name) not in TOLERATED:
            eng.stats['stagecalls'] = eng.stats.get('stagecalls', 0) + 1
            out = []
            for st, v in res:
                v = eng.cur_val(st, v)
                if isinstance(v, SV) or v[0] in ('d', 'u'):
                    out.append((st, v))
                    continue
                nul, non = eng.split_null(st, v, n)
                for s in nul:
                    s.flags.setdefault('rep', name)
                    s.note(n.line, '%s fails' % name)
                    out.append((s, NULL))
                out.extend(non)
            return out
        return res

    def on_backedge(self, eng, st, head, n, cond):
        if cond is None:
            return
        from fe import walk
        vs = []
        for x in walk(cond):
            if x.k in ('CallExpr', 'MemberExpr', 'ArraySubscriptExpr'):
                return
            if x.k == 'UnaryOperator' and x.op in ('*', '++', '--'):
                return
            if x.k == 'DeclRefExpr' and x.val in ('VarDecl', 'ParmVarDecl'):
                r = eng.frames[-1].get(x.ref)
                if r is None:
                    return
                vs.append((r, ()))
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        if vs and all(head.get(l, DC)[0] not in 'du' and eng.cur_val(st, head[l]) == eng.cur_val(st, st.store.get(l, DC)) for l in vs):
            eng.viol(st, 'no-progress', n, 'an iteration of this loop can leave everything its condition depends on as it was', key='progress')

    def before_return(self, eng, st, v, node):
        if isinstance(v, SV):
            return
        if self.root in ARGPARSE and '$err' in st.flags and '$argc' in st.flags:
            e = eng.cur_val(st, st.store.get(st.flags['$err'], DC))
            a = eng.cur_val(st, st.store.get(st.flags['$argc'], DC))
            a0 = eng.cur_val(st, st.store.get((('L', 0, '$argc'), ()), DC))
            eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
            if e == ('i', 1) and not st.flags.get('rep'):
                eng.viol(st, 'silent-failure', node, '%s fails on this path although nothing has been reported' % self.root, key='silent')
            if e == ('i', 0) and st.flags.get('rep'):
                eng.viol(st, 'success-after-error', node, '%s does not fail on this path although an error has been reported' % self.root, key='accepted')
            if v == ('i', 1) and e == ('i', 0) and a == a0:
                eng.viol(st, 'no-progress', node, '%s takes an argument without consuming it' % self.root, key='progress')
            if v == ('i', 0) and (e != ('i', 0) or a != a0):
                eng.viol(st, 'arg-lost', node, '%s says the argument was not its own but has consumed it' % self.root, key='lost')
            return
        if self.root not in MAINS:
            return
        if v[0] != 'i':
            # a status worked out at run time may be success
            if v[0] in ('s', 'u', 'd') and st.flags.get('rep') and (v[0] != 's' or eng.split_null(st.copy(), v)[0]):
                eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
                eng.viol(st, 'success-after-error', node, '%s may exit with success on this path although %s has failed' % (self.root, st.flags['rep']), key='accepted ' + st.flags['rep'])
            return
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        if v[1] == 0 and st.flags.get('rep'):
            eng.viol(st, 'success-after-error', node, '%s exits with success on this path although %s has failed' % (self.root, st.flags['rep']), key='accepted ' + st.flags['rep'])
        if v[1] != 0 and not st.flags.get('rep'):
            eng.viol(st, 'silent-failure', node, '%s exits with failure on this path although nothing has failed' % self.root, key='silent')
        if v[1] == 0 and not st.flags.get('rep'):
            if not any(k.startswith('out:') for k in st.flags) and not st.flags.get('help'):
                eng.viol(st, 'no-output', node, '%s exits with success on this path without having done anything' % self.root, key='noout')
            for k in st.flags:
                if k.startswith('ask:') and not any('out:' + o in st.flags for o in ASKED[k[4:]]) and not st.flags.get('help') and 'out:FblePrintVersion' not in st.flags:
                    eng.viol(st, 'no-output', node, '%s exits with success on this path without what %s asks for' % (self.root, k[4:]), key='noout ' + k)


def literal(a):
    from fe import walk
    for x in walk(a) if a is not None else ():
        if x.k == 'StringLiteral':
            return (x.val or '').strip('"')
    return None


HOOKS = {'diag': Diag, 'exit': Exit}


def make(names, rel, root):
    import own
    return [own.Tags()] + [HOOKS[x](rel, root) for x in names]


# -- C11: scopes ---------------------------------------------------------------
def path_of(st, v):
    """The path of the place something was read from."""
    if v[0] not in ('p', 's'):
        return None
    for (r, p), x in st.store.items():
        if x == v and p and isinstance(p[-1], str) and '.' in p[-1] and not isinstance(r, tuple):
            return p
    for (r, p), x in st.store.items():
        if x == v and p and isinstance(p[-1], str) and '.' in p[-1]:
            return p
    return None


def where(st, v):
    """The field something was read from."""
    p = path_of(st, v)
    return None if p is None else p[-1]


def scope_key(eng, st, v):
    """Which scope a call is about: the one in hand, or one made here."""
    v = eng.cur_val(st, v)
    if v[0] == 'p' and isinstance(v[1][0], tuple) and v[1][0][0] == 'L':
        return 'local %s' % v[1][0][-1] if isinstance(v[1][0][-1], str) else 'local'
    return 'outer'


def empty(eng, st, w):
    """The construct need not have the element things are judged by."""
    rec = w.split('.')[0]
    for (r, p), x in st.store.items():
        if p and isinstance(p[-1], str) and p[-1].endswith('.size') and isinstance(p[0], str) and p[0].startswith(rec + '.') and eng.kmask(st, eng.cur_val(st, x)) != 4:
            return True
    return False


class Scopes(Hook):
    """Names pushed and popped while checking types."""
    rep = True
    PUSH = ('PushLocalVar', 'PushLocalTypeVar')
    POP = 'PopLocalVar'
    CHECK = {'TypeCheckExpr': 2, 'TypeCheckType': 2, 'TypeCheckExprForType': 2, 'TypeCheckExprWithCleaner': 2, 'TypeCheckTypeWithCleaner': 2}
    # where the names of a construct are in scope
    INSIDE = {'FbleLetExpr.body': 1, 'FbleBinding.expr': 1, 'FblePolyValueExpr.body': 1}
    NEWSCOPE = {'FbleFuncValueExpr.body'}
    NAMES = {'FbleBinding.name', 'FblePolyArg.name', 'FbleTaggedKind.name', 'FbleFuncArg.name', 'FbleTaggedTypeExpr.name'}

    def __init__(self, rel, root):
        self.rel = rel; self.root = root

    def depth(self, st, k):
        return st.flags.get('depth ' + k, 0)

    def after_call(self, eng, name, vs, n, res):
        if name in self.PUSH and not eng.nonrep:
            for st, v in res:
                k = scope_key(eng, st, vs[0])
                d = self.depth(st, k)
                if eng.unkloop or d == '?':
                    st.flags['depth ' + k] = '?'
                    continue
                st.flags['depth ' + k] = d + 1
                if d > 6:
                    continue
                if v[0] == 'p':
                    st.store[(('L', 0, '$var %s %d' % (k, d)), ())] = v
                eng.stats['scopeops'] = eng.stats.get('scopeops', 0) + 1
        if name == self.POP and not eng.nonrep:
            for st, v in res:
                k = scope_key(eng, st, vs[-1])
                d = self.depth(st, k)
                if eng.unkloop or d == '?':
                    st.flags['depth ' + k] = '?'
                    continue
                d -= 1
                eng.stats['scopeops'] = eng.stats.get('scopeops', 0) + 1
                if d < 0:
                    if k == 'outer':
                        eng.viol(st, 'scope', n, 'a name is popped that this construct has not pushed', key='underflow')
                    continue
                st.flags['depth ' + k] = d
                c = (('L', 0, '$var %s %d' % (k, d)), ())
                if c in st.store:
                    st.store[(('L', 0, '$popped'), ())] = st.store.pop(c)
        return res

    def on_member(self, eng, st, loc, rec, f, n):
        if rec == 'Var':
            p = st.store.get((('L', 0, '$popped'), ()))
            if p is not None and p[1][0] == loc[0]:
                eng.viol(st, 'scope', n, 'field %s of a variable is used after the variable was popped' % f, key='popped ' + f)

    def on_call(self, eng, st, name, vs, n):
        if name in self.CHECK and not eng.nonrep and len(vs) > self.CHECK[name]:
            w = where(st, eng.cur_val(st, vs[self.CHECK[name]]))
            k = scope_key(eng, st, vs[1])
            if w is None:
                return None
            eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
            want = self.INSIDE.get(w, 0)
            if w in self.NEWSCOPE:
                if k == 'outer':
                    eng.viol(st, 'scope', n, '%s is checked in the scope around it instead of one of its own' % w, key='own ' + w)
                return None
            d = self.depth(st, k)
            if d not in (want, '?') and not empty(eng, st, w):
                eng.viol(st, 'scope', n, '%s is checked with %d of the names of its construct in scope in place of %d' % (w, d, want), key='in ' + w)
        return None

    def before_return(self, eng, st, v, node):
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        d = self.depth(st, 'outer')
        if d != '?' and d > 0:
            eng.viol(st, 'scope', node, '%d name(s) pushed on this path are still in scope when %s returns' % (d, self.root), key='left')


HOOKS['scopes'] = Scopes


class Counter(Hook):
    """Things that are entered and left again, counted per scope."""
    rep = True

    def get(self, st, k):
        return st.flags.get(k, 0)

    def bump(self, eng, st, k, by):
        """-> the new count, None if unknown"""
        v = st.flags.get(k, 0)
        if eng.unkloop or v == '?':
            st.flags[k] = '?'
            return None
        st.flags[k] = v + by
        return v + by


class Emit(Counter):
    """What the compiler emits: names, profiling and control at each exit."""
    CALLS = {'FBLE_CALL_INSTR', 'FBLE_TAIL_CALL_INSTR'}
    ENDS = {'FBLE_RETURN_INSTR', 'FBLE_TAIL_CALL_INSTR'}

    def __init__(self, rel, root):
        self.rel = rel; self.root = root

    def on_start(self, eng, st, f, frame):
        if self.root == 'CompileExpr':
            st.store[(('L', 0, '$exit'), ())] = st.store.get((frame[f.params[2][2]], ()))

    def exit_mode(self, eng, st):
        return eng.cur_val(st, st.store.get((('L', 0, '$exit'), ()), DC))

    def kind(self, p):
        if 'FbleTcBranchTarget.target' in p or 'FbleUnionSelectTc.default_' in p:
            return 'branch'
        return {'FbleLetTc.body': 'body', 'FbleTcBinding.tc': 'binding'}.get(p[-1], 'other')

    def on_store(self, eng, st, loc, v, n):
        p = loc[1]
        if not p or eng.nonrep:
            return
        if p[-1] == 'Scope.active_profile_ops':
            k = scope_key(eng, st, ('p', loc))
            st.flags['active ' + k] = 'pending' if v[0] == 'p' and v[1][1] and v[1][1][-1] == 'Scope.pending_profile_ops' else 'instr'
        if p[-1] in ('FbleBranchTarget.target', 'FbleUnionSelectInstr.default_', 'FbleGotoInstr.target') and v[0] != 'i':
            st.flags['label'] = 1
            st.flags.pop('exited outer', None)

    def append(self, eng, st, k, n):
        if st.flags.pop('label', None) and st.flags.get('active ' + k) == 'instr':
            eng.viol(st, 'profile', n, 'profiling operations at the start of a branch are added to the instruction before it', key='label')

    def on_call(self, eng, st, name, vs, n):
        if eng.nonrep:
            return None
        if name == 'AppendProfileOp':
            k = scope_key(eng, st, vs[0])
            self.append(eng, st, k, n)
            t = eng.cur_val(st, vs[1])
            nm = {v: c for c, v in eng.tu.enum_val.items() if c.startswith('FBLE_PROFILE_') and c.endswith('_OP')}.get(t[1] if t[0] == 'i' else None)
            eng.stats['profileops'] = eng.stats.get('profileops', 0) + 1
            if nm == 'FBLE_PROFILE_ENTER_OP':
                self.bump(eng, st, 'prof ' + k, 1)
            elif nm == 'FBLE_PROFILE_EXIT_OP':
                d = self.bump(eng, st, 'prof ' + k, -1)
                if d is not None and d < 0:
                    eng.viol(st, 'profile', n, 'a block is exited that has not been entered', key='exit')
                if st.flags.get('called ' + k) and st.flags.get('active ' + k) == 'instr':
                    eng.viol(st, 'profile', n, 'the exit of a block is added to the call made in it', key='exitcall')
                if st.flags.get('exited ' + k):
                    eng.viol(st, 'profile', n, 'the exit of a block is emitted after control has left', key='lateexit')
            elif nm == 'FBLE_PROFILE_REPLACE_OP':
                if k == 'outer' and self.exit_mode(eng, st) == ('i', 0):
                    eng.viol(st, 'profile', n, 'a block that is returned to is replaced', key='replace')
                st.flags['replaced ' + k] = 1
        elif name in ('PushBlock', 'PushBodyBlock'):
            self.bump(eng, st, 'blocks', 1)
        elif name == 'PopBlock':
            d = self.bump(eng, st, 'blocks', -1)
            st.flags.pop('replaced outer', None)
            if d is not None and d < 0:
                eng.viol(st, 'profile', n, 'a block is left that this construct has not entered', key='underflow')
        elif name == 'AppendInstr':
            k = scope_key(eng, st, vs[0])
            self.append(eng, st, k, n)
            if st.flags.get('exited ' + k):
                eng.viol(st, 'tail', n, 'an instruction is emitted after control has left', key='dead')
            st.flags['active ' + k] = 'instr'
            v = eng.cur_val(st, vs[1])
            t = st.store.get((v[1][0], ('FbleInstr.tag',)), DC) if v[0] == 'p' else DC
            nm = {x: c for c, x in eng.tu.enum_val.items() if c.startswith('FBLE_') and c.endswith('_INSTR')}.get(t[1] if t[0] == 'i' else None)
            st.flags.pop('called ' + k, None)
            if nm in self.CALLS:
                st.flags['called ' + k] = 1
            if nm == 'FBLE_CALL_INSTR' and k == 'outer' and self.root == 'CompileExpr' and self.exit_mode(eng, st) == ('i', 1):
                eng.viol(st, 'tail', n, 'a call in tail position is not compiled as a tail call', key='call')
            if nm in self.ENDS:
                st.flags['exited ' + k] = 1
                if k == 'outer' and self.root == 'CompileExpr' and self.exit_mode(eng, st) == ('i', 0):
                    eng.viol(st, 'tail', n, 'the function is left by an expression whose value is still needed', key='end')
        elif name == 'PushVar':
            self.bump(eng, st, 'vars ' + scope_key(eng, st, vs[0]), 1)
        elif name == 'SetVar':
            self.bump(eng, st, 'set ' + scope_key(eng, st, vs[0]), 1)
        elif name == 'PopVar' and 'FreeScope' not in eng.stack:
            k = scope_key(eng, st, vs[0])
            d = self.bump(eng, st, 'vars ' + k, -1)
            st.flags.pop('set ' + k, None)
            if d is not None and d < 0 and k == 'outer':
                eng.viol(st, 'scope', n, 'a variable is popped that this construct has not pushed', key='underflow')
        elif name == 'CompileExpr' and len(vs) > 4:
            self.compile(eng, st, vs, n)
        return None

    def compile(self, eng, st, vs, n):
        k = scope_key(eng, st, vs[3])
        x, e = eng.cur_val(st, vs[2]), self.exit_mode(eng, st)
        p = path_of(st, eng.cur_val(st, vs[4]))
        kind = self.kind(p) if p is not None else 'other'
        if st.flags.pop('label', None) and st.flags.get('active ' + k) == 'instr':
            eng.viol(st, 'profile', n, 'profiling operations at the start of a branch are added to the instruction before it', key='label')
        if st.flags.get('exited ' + k):
            eng.viol(st, 'tail', n, 'an expression is compiled after control has left', key='dead')
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        blocks = self.get(st, 'blocks')
        if k != 'outer':
            if x == ('i', 0):
                eng.viol(st, 'tail', n, 'the body of a function is not compiled as its last expression', key='body')
            if blocks not in (1, '?'):
                eng.viol(st, 'profile', n, 'the body of a function is compiled in no block of its own', key='bodyblock')
            st.flags['exited ' + k] = 1
            st.flags.pop('active ' + k, None)
            return
        tail = kind in ('body', 'branch')
        if tail and e == ('i', 1) and x == ('i', 0):
            eng.viol(st, 'tail', n, 'an expression in tail position is not compiled as one', key='nottail')
        if x == ('i', 1) and (not tail or e == ('i', 0)):
            eng.viol(st, 'tail', n, 'an expression that is not in tail position is compiled as if it were', key='tail')
        want = 1 if kind in ('body', 'binding') else 0
        d = self.get(st, 'vars outer')
        if d not in (want, '?') and p is not None and not empty(eng, st, 'FbleLetTc.body'):
            eng.viol(st, 'scope', n, '%s is compiled with %d of the variables of its construct in scope in place of %d' % (p[-1], d, want), key='in ' + p[-1])
        if kind == 'body' and d == 1 and self.get(st, 'set outer') not in (1, '?'):
            eng.viol(st, 'scope', n, 'the body is compiled before its variables have their values', key='set')
        if kind == 'binding' and self.get(st, 'set outer') not in (0, '?'):
            eng.viol(st, 'scope', n, 'a variable has its value before that has been compiled', key='set')
        want = 1 if kind in ('binding', 'branch') else 0
        if blocks not in (want, '?'):
            eng.viol(st, 'profile', n, '%s is compiled in %s block in place of %s' % (p[-1] if p else 'an expression', blocks, want), key='block ' + kind)
        prof = self.get(st, 'prof outer')
        if want and x == ('i', 0) and prof not in (1, '?') or not want and prof not in (0, '?'):
            eng.viol(st, 'profile', n, '%s is compiled with %s blocks entered in place of %d' % (p[-1] if p else 'an expression', prof, want), key='prof ' + kind)
        if want and x == ('i', 1) and not st.flags.get('replaced outer') and prof != '?':
            eng.viol(st, 'profile', n, '%s is left for good in a block that does not replace the one around it' % p[-1], key='repl')
        st.flags.pop('active outer', None)
        st.flags.pop('called outer', None)
        if x == ('i', 1):
            st.flags['exited outer'] = 1

    def before_return(self, eng, st, v, node):
        eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
        d = self.get(st, 'vars outer')
        if d != '?' and d > 0 and self.root != 'PushVar':
            eng.viol(st, 'scope', node, 'variables pushed on this path are still in scope when %s returns' % self.root, key='left')
        if self.root == 'CompileExpr':
            if self.get(st, 'blocks') not in (0, '?'):
                eng.viol(st, 'profile', node, 'a block entered on this path is never left', key='blockleft')
            if self.get(st, 'prof outer') not in (0, '?'):
                eng.viol(st, 'profile', node, 'the profile block entered on this path is never exited', key='profleft')
            e = self.exit_mode(eng, st)
            if e == ('i', 1) and not st.flags.get('exited outer'):
                eng.viol(st, 'tail', node, 'an expression in tail position does not return from the function', key='noreturn')
            if st.flags.get('called outer') and st.flags.get('active outer') == 'instr':
                eng.viol(st, 'profile', node, 'what is profiled after a call is added to the call itself', key='aftercall')
        elif self.get(st, 'blocks') not in (0, '?') and self.root == 'Compile':
            eng.viol(st, 'profile', node, 'a block entered on this path is never left', key='blockleft')


HOOKS['emit'] = Emit


class Unused(Hook):
    """Variables visible while looking for unused ones."""
    rep = True
    INSIDE = {'FbleLetExpr.body', 'FbleBinding.expr', 'FblePolyValueExpr.body', 'FbleFuncValueExpr.body'}

    def __init__(self, rel, root):
        self.rel = rel; self.root = root

    def on_start(self, eng, st, f, frame):
        if self.root == 'Expr' and len(f.params) > 1:
            st.store[(('L', 0, '$vars'), ())] = st.store.get((frame[f.params[1][2]], ()))

    def on_call(self, eng, st, name, vs, n):
        if name == 'Expr' and self.root == 'Expr' and len(vs) > 1 and not eng.nonrep:
            w = where(st, eng.cur_val(st, vs[0]))
            v = eng.cur_val(st, vs[1])
            o = eng.cur_val(st, st.store.get((('L', 0, '$vars'), ()), DC))
            if w is None:
                return None
            eng.stats['obligations'] = eng.stats.get('obligations', 0) + 1
            if w in self.INSIDE and v == o and v[0] != 'd':
                eng.viol(st, 'scope', n, '%s is searched without the names of its construct in scope' % w, key='in ' + w)
            if w not in self.INSIDE and v != o and v[0] == 'p' and isinstance(v[1][0], tuple):
                eng.viol(st, 'scope', n, '%s is searched with the names of its construct in scope' % w, key='in ' + w)
        return None


HOOKS['unused'] = Unused
