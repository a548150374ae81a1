"""Contracts per translation unit, and the functions analysed against them.

A contract says what a call does to what it is given and what it returns.
Every contract of a function with a body in /repo is checked against that body
(the function is analysed as a root with the matching obligations), and the
callers are analysed assuming it."""
import json
import os
from spec import C, HANDLERS, release, use_all, stale_to_dead, new_owned, h_report, copyval, mkret
import spec as S
from engine import NULL, DC, SV


def tcpair(eng, st, name, vs, n):
    """A typed expression: both parts, or (failed) neither."""
    if not use_all(eng, st, vs, n):
        return []
    stale_to_dead(eng, st, n)
    t = eng.T.parse(n.ty)
    if t[0] != 'rec':
        return [(st, DC)]
    a = st.copy()
    a.note(n.line, 'failed')
    out = [(a, SV({p: NULL for p, _ in eng.leaves(t[1])}))]
    m = {}
    for p, lt in eng.leaves(t[1]):
        m[p] = new_owned(eng, st, lt, n)
    out.append((st, SV(m)))
    return out


tcpair.ret = 'own+null'


def pushvar(eng, st, name, vs, n):
    """The scope takes the type over, inside a new variable."""
    if not use_all(eng, st, vs, n):
        return []
    r = eng.newobj(st, 'ext', rec='Var', own=0, b=True, origin='line %s' % n.line)
    if len(vs) > 2:
        st.store[(r, ('Var.type',))] = vs[2]
    if name == 'PushLocalTypeVar':
        st.store[(r, ('Var.var', 'FbleVar.tag'))] = ('i', 4)
    return [(st, ('p', (r, ())))]


pushvar.modes = {2: 'own+nullable'}
pushvar.ret = 'b'


def compileexpr(eng, st, name, vs, n):
    """The local that holds the result, or nothing after a tail call (which
    only happens when asked to exit)."""
    if not use_all(eng, st, vs, n):
        return []
    out = []
    ex = eng.cur_val(st, vs[2]) if len(vs) > 2 else DC
    if ex == ('i', 0):
        return [(st, new_owned(eng, st, ('ptr', ('rec', 'Local')), n))]
    if ex[0] == 's':
        nul, non = eng.split_null(st, ex, n)
        for s in nul:
            out.append((s, new_owned(eng, s, ('ptr', ('rec', 'Local')), n)))
        sts = [s for s, _ in non]
    else:
        sts = [st]
    for s in sts:
        a = s.copy()
        a.note(n.line, 'absent')
        out.append((a, NULL))
        if ex == ('i', 1):
            # the scope that is left next disposes of it in any case
            out.append((s, DC))
            continue
        out.append((s, new_owned(eng, s, ('ptr', ('rec', 'Local')), n)))
    return out


compileexpr.ret = 'own+null'


def outparam(idx, mode='own', modes=None):
    """A function that returns whether it succeeded, and sets *arg on success."""
    def h(eng, st, name, vs, n):
        if not use_all(eng, st, vs, n):
            return []
        a = st.copy()
        out = []
        for s, loc in eng.deref(a, vs[idx], n):
            out.append((s, ('i', 0)))
        for s, loc in eng.deref(st, vs[idx], n):
            for s1, loc1 in eng.norm_loc(s, loc):
                vals = [mode]
                for m in ('own', 'null') if mode == 'own?' else (mode,):
                    s2 = s1.copy()
                    if m == 'null':
                        v = NULL
                    elif m == 'own':
                        v = new_owned(eng, s2, ('ptr', ('rec', 'FbldMarkup')), n)
                    else:
                        v = DC
                    for s3 in eng.store(s2, loc1, v, n):
                        out.append((s3, ('i', 1)))
        return out
    h.ret = 'int'
    h.modes = modes or {}
    return h


def yyparse(eng, st, name, vs, n):
    """Whatever it returns, it may have left a result behind."""
    if not use_all(eng, st, vs, n):
        return []
    stale_to_dead(eng, st, n)
    out = []
    for rc in (0, 1):
        a = st.copy()
        a.note(n.line, 'parsed' if rc == 0 else 'syntax error')
        nul, non = eng.split_null(a, vs[1], n)
        res = list(nul)
        for s, v in non:
            for s1, loc in eng.deref(s, v, n):
                for s2, loc2 in eng.norm_loc(s1, loc):
                    s3 = s2.copy()
                    res.extend(eng.store(s3, loc2, new_owned(eng, s3, ('ptr', ('rec', 'FbleExpr')), n), n))
                    if rc:
                        res.append(s2)
        for s in res:
            out.append((s, ('i', rc)))
    return out


yyparse.ret = None


def popframe(eng, st, name, vs, n):
    """Hands the value over to the frame below; nothing if there is none."""
    if not use_all(eng, st, vs, n) or len(vs) < 2:
        return []
    nul, non = eng.split_null(st, vs[1], n)
    return [(s, NULL) for s in nul] + [(s, eng.newsym(s, eng.T.parse(n.ty), b=True, neq=frozenset([0]))) for s, _ in non]


def _set(eng, st, v, n, f):
    """States in which *v has been set to f(old value)."""
    v = eng.cur_val(st, v)
    if v[0] not in ('p', 's'):
        return [st]
    out = []
    for s, loc in eng.deref(st, v, n):
        for s1, loc1 in eng.norm_loc(s, loc):
            s1.store[loc1] = f(s1, loc1, eng.cur_val(s1, s1.store.get(loc1, DC)))
            out.append(s1)
    return out


def argparse(kind):
    """An argument is not recognised (and left alone), is parsed (and consumed),
    or is wrong (and reported)."""
    argc, argv, err = {'invalid': (0, 1, 2), 'module': (1, 2, 3)}.get(kind, (2, 3, 4))
    took = {'bool': 1, 'string': 2, 'module': 1}.get(kind)

    def h(eng, st, name, vs, n):
        if not use_all(eng, st, vs, n) or len(vs) <= err:
            return []
        out = []
        if kind != 'invalid':
            a = st.copy()
            out.append((a, ('i', 0)))
            sts = [st.copy()]
            for i, f in ((argc, lambda s, l, o: eng.shift(o, -took)), (argv, lambda s, l, o: DC)):
                sts = [y for x in sts for y in _set(eng, x, vs[i], n, f)]
                if i == argc:
                    for x in sts:
                        c = eng.cur_val(x, vs[i])
                        if c[0] == 'p':
                            x.inc = x.inc | {c[1]}
            if kind == 'bool':
                sts = [y for x in sts for y in _set(eng, x, vs[1], n, lambda s, l, o: ('i', 1))]
            elif kind == 'string':
                sts = [y for x in sts for y in _set(eng, x, vs[1], n, lambda s, l, o: eng.newsym(s, eng.T.parse('char *'), b=True, neq=frozenset([0])))]
            out.extend((x, ('i', 1)) for x in sts)
        if kind != 'bool':
            st.note(n.line, 'wrong argument')
            out.extend((x, ('i', 1)) for x in _set(eng, st, vs[err], n, lambda s, l, o: ('i', 1)))
        return out
    h.ret = 'int'
    h.modes = {}
    return h


def U(name):
    return HANDLERS[name]


def borrow(**kw):
    return C(**kw)


# functions other translation units may call: contracts shared by all of them
GLOBAL = {
    # code and compiled modules
    'FbleRawAllocInstr': S.h_newinstr, 'FbleFreeDebugInfo': C(release=(0,), nullable=(0,)), 'FbleFreeInstr': C(release=(0,)),
    'FbleNewCode': C('own'), 'FbleFreeCode': C(release=(0,)), 'FbleDisassemble': C(),
    'FbleFreeCompiledModule': C(release=(0,)), 'FbleFreeCompiledProgram': C(release=(0,), nullable=(0,)),
    'FbleCompileModule': C('own?'), 'FbleCompileProgram': C('own?'),
    # loading
    'FbleNewSearchPath': C('own'), 'FbleFreeSearchPath': C(release=(0,)), 'FbleAppendToSearchPath': C(), 'FbleAppendStringToSearchPath': C(),
    'FbleFindPackage': C('own?'), 'FbleLoad': C('own?'), 'FbleFreeLoadedProgram': C(release=(0,), nullable=(0,)), 'FbleSaveBuildDeps': C(),
    'FbleParse': C('own?'), 'FbleParseModulePath': C('own?'), 'FbleIsPlainWord': C('int'),
    'FbleTypeCheckModule': C('own?'), 'FbleTypeCheckProgram': C('vecown?'), 'FbleWarnAboutUnusedVars': C(),
    # generated code
    'FbleGenerateAArch64': C(), 'FbleGenerateAArch64Export': C(), 'FbleGenerateAArch64Main': C(),
    'FbleGenerateC': C(), 'FbleGenerateCExport': C(), 'FbleGenerateCMain': C(),
    # profiles
    'FbleNewProfile': C('own'), 'FbleFreeProfile': C(release=(0,)), 'FbleAddBlockToProfile': C('int', consume=(1,)),
    'FbleAddBlocksToProfile': C('int'), 'FbleNewProfileThread': C('own?'), 'FbleFreeProfileThread': C(release=(0,), nullable=(0,)),
    'FbleProfileSample': C(), 'FbleProfileRandomSample': C(), 'FbleProfileEnterBlock': C(), 'FbleProfileReplaceBlock': C(),
    'FbleProfileExitBlock': C(), 'FbleGenerateProfileReport': C(),
    # arguments
    'FbleParseBoolArg': argparse('bool'), 'FbleParseStringArg': argparse('string'),
    'FbleParseInvalidArg': argparse('invalid'), 'FbleParseModuleArg': argparse('module'),
    'FbleNewModuleArg': C('modarg'), 'FbleFreeModuleArg': C(release=(0,), nullable=(0,)),
    # runtime
    'FbleNewValueHeap': C('own'), 'FbleFreeValueHeap': C(release=(0,)),
    'FbleNewInterpretedFuncValue': C('b*'), 'FbleNewNativeValue': C('b*', consume=(1,)), 'FbleNewFuncValue': C('b*'), 'FbleLink': C('b?'), 'FbleEval': C('b?'), 'FbleApply': C('b?'),
    'FblePopFrame': popframe, 'FblePushFrame': C(),
    'FblePrintCompiledHeaderLine': C(), 'FblePrintVersion': C(),
    # markup
    'FbldReportError': h_report, 'FbldNewText': C('own'), 'FbldNewPlainMarkup': C('own'),
    'FbldFreeMarkup': C(release=(0,), nullable=(0,)), 'FbldCopyMarkup': S.copy_nullable, 'FbldMarkupLoc': C('rec'),
    'FbldTextOfMarkup': C('own?'), 'FbldPrintMarkup': C('int', nonnull=(0,)), 'FbldDebugMarkup': C(), 'FbldParse': C('own?'),
    'FbldEval': C('own?'),
    # strings handed to C
    'FbleStringValueAccess': C('own?'),
    'fopen': C('own?'), 'fclose': C('int', release=(0,)), 'strdup': C('own'),
}

_CG = {'EmitCode': C(), 'EmitInstr': C(), 'EmitOutlineCode': C(), 'StaticGeneratedModule': C(), 'StaticNames': C(), 'StaticModulePath': C(),
       'StringLit': C(), 'StaticString': C(), 'EmitSearch': C(), 'CollectBlocks': C(), 'CollectBlocksAndLocs': C(), 'LabelForPath': C('own')}

PER_TU = {
    'lib/typecheck.c': dict(
        contracts={
            'ReportError': h_report,
            'PushLocalVar': pushvar, 'PushLocalTypeVar': pushvar, 'PopLocalVar': C(),
            'GetVar': C('b?'),
            'CleanType': C(consume=(1,)), 'CleanTc': C(consume=(1,)), 'CleanTypeAssignmentV': C(consume=(1,)), 'CleanTcBinding': C(consume=(1,)),
            'TypeCheckExpr': tcpair, 'TypeCheckExprWithCleaner': tcpair,
            'TypeCheckType': C('own?', typealloc=True), 'TypeCheckTypeWithCleaner': C('own?', typealloc=True),
            'TypeCheckExprForType': C('own?', typealloc=True),
            'DepolyType': C('own', typealloc=True),
            'PolyApply': tcpair, 'TypeInferArgs': tcpair, 'TypeCheckModule': tcpair,
        },
        owned={'Var', 'FbleTypeAssignmentV', 'Cleaner'},
        override={
            'Scope.captured': 'borrow', 'Scope.parent': 'borrow', 'Arg.name': 'borrow',
            'VarName.normal': 'borrow', 'VarName.module': 'borrow',
            'Scope.statics': ('vec', 'own'), 'Scope.args': ('vec', 'own'), 'Scope.locals': ('vec', 'own'),
            'Cleaner.tyvars': ('vec', 'own'),
        },
        modes={'PolyApply': ('own+null', {1: 'nullable', 2: 'nullable'}),
               'TypeInferArgs': ('own+null', {4: 'nullable'})},
        skip={'InitScope', 'FreeScope', 'Cleanup', 'NewCleaner', 'MkTc', 'FreeTc', 'CopyTcBinding', 'PushLocalTypeVar'},
    ),
    'lib/type.c': dict(contracts={}, modes={'FbleTypeOnFree': ('', {0: 'drain'})}),
    'lib/compile.c': dict(
        contracts={
            'NewLocal': C('own'), 'ReleaseLocal': C(release=(1,), nullable=(1,)), 'PushVar': C(consume=(2,)), 'PopVar': C(),
            'SetVar': C(consume=(3,)), 'GetVar': C('b'), 'RewriteVars': C('own'), 'AppendInstr': C(consume=(1,)),
            'AppendDebugInfo': C(consume=(1,)), 'AppendProfileOp': C(), 'CompileExpr': compileexpr,
            'FreeLocal': C(release=(0,)),
        },
        owned={'Local', 'FbleProfileOp'},
        override={'Scope.locals': 'borrow', 'Scope.parent': 'borrow', 'Scope.code': 'borrow', 'Scope.vars': ('vec', 'own')},
        modes={},
    ),
    'lib/c.c': dict(contracts=dict(_CG)), 'lib/aarch64.c': dict(contracts=dict(_CG)),
    'lib/interpret.c': dict(contracts={}, modes={'FreeCode': ('', {0: 'own'}), 'Interpret': ('b', {})}),
    'lib/unused.c': dict(contracts={'Expr': C()}),
    'lib/link.c': dict(contracts={'LoadGenerated': C()}),
    'lib/profile.c': dict(contracts={'MergeSortCallData': C()}, override={'FbleProfileThread.profile': 'borrow', 'Sample.call': 'borrow', 'CallDataEV.xs': 'borrow',
                                                                                'CallStack.tail': 'borrow', 'CallStack.next': 'borrow', 'FbleProfileThread.calls': 'borrow'},
                          skip={'FbleGenerateProfileReport', 'FbleNewProfileThread', 'FbleFreeProfileThread', 'FbleProfileEnterBlock', 'FbleProfileReplaceBlock', 'FbleProfileExitBlock'}),
    'fbld/eval.c': dict(contracts={
        'HeadOf': C('int', out=(1,), pnull=(0,)), 'TailOf': outparam(1, 'own?', modes={0: 'nullable'}), 'MapPlain': C('own?', pnull=(1,)),
        'CopyEnv': S.copy_nullable, 'FreeEnv': C(release=(0,), nullable=(0,)), 'Eval': C('int', release=(0,)), 'PushEval': C('own', consume=(0,))}),
    'lib/parse.y': dict(contracts={'yyparse': yyparse, 'yylex': C('int'), 'ToString': C('own', consume=(0,)), 'IsSpaceChar': C('int'), 'IsPunctuationChar': C('int'),
                                   'IsWordChar': C('int'), 'ReadNextChar': C(), 'FbleIsPlainWord': C('int'), 'yyerror': h_report},
                        pp=('FbleExpr',), modes={'yylex': ('int', {1: 'dc'})}, skip={'yyparse', 'yydestruct', 'yy_stack_print', 'yyerror'}, override={'YYSTYPE.word': 'own', 'Lex.fin': 'borrow', 'Lex.sin': 'borrow'}),
    'fbld/markup.c': dict(contracts={}),
    'fbld/parse.c': dict(contracts={
        'ParseInlineCommand': C('own?'), 'ParseInline': C('own?'), 'ParseBlockCommand': C('own?'), 'ParseBlock': C('own?'),
        'ParseName': C('own'), 'GetC': C('int'), 'NextFetched': C('int', out=(1,)), 'Char': C('int'), 'Is': C('int'), 'IsEnd': C('int'), 'Advance': C(), 'IsNameChar': C('int')},
        override={'Lex.next': 'own', 'Lex.fin': 'own', 'Lex.inputs': 'borrow'}),
    'pkgs/core/stdio.fble.c': dict(contracts={}, modes={'IStreamImpl': ('b', {}), 'OStreamImpl': ('b', {}), 'ReadImpl': ('b', {}), 'WriteImpl': ('b', {}), 'GetEnvImpl': ('b', {})}),
    'bin/fble-perf-profile.c': dict(contracts={'Sample': C(), 'GetLine': C('int')}, override={'String.chars': 'own'}, skip={'GetLine'}),
}


# sources whose functions are all primitives of the specification
NOROOTS = {'lib/alloc.c', 'lib/vector.c', 'fbld/alloc.c', 'fbld/vector.c', 'lib/version.c', 'lib/type-heap.c', 'lib/value.c'}
# not followed function by function: the collectors have rules of their own
COLLECTORS = {'lib/type-heap.c', 'lib/value.c'}

_SIG = None


def signatures():
    global _SIG
    if _SIG is None:
        try:
            _SIG = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'signatures.json')))
        except OSError:
            _SIG = {}
    return _SIG


def sig(f):
    return f.type


def signature_ok(rel, f):
    s = signatures().get(f.name)
    return s is None or f.type in s


def spec_for(rel, t=None):
    d = PER_TU.get(rel, {})
    ex = dict(GLOBAL)
    ex.update(d.get('contracts', {}))
    if t is not None:
        # a contract only speaks of the parameters it was written for
        for f in t.protos.values():
            if not signature_ok(rel, f):
                ex[f.name] = None
    ov = d.get('override')
    sp = S.Spec(extra=ex, override=ov, owned=d.get('owned', ()))
    sp.pp = sp.pp | set(d.get('pp', ()))
    return sp


def modes_for(rel, f, spec):
    """(ret, {param: mode}) a body must honour, from its contract."""
    d = PER_TU.get(rel, {})
    if f.name in d.get('modes', {}):
        return d['modes'][f.name]
    c = spec.handler(f.name)
    if isinstance(c, C):
        pm = {}
        for i in c.release:
            pm[i] = 'own' + ('+nullable' if i in c.nullable else '')
        for i in c.consume:
            pm[i] = 'own'
        for i in c.pnull:
            pm[i] = pm.get(i, '') + '+nullable'
        ret = {'own': 'own', 'modarg': 'own+null', 'own?': 'own+null', 'vecown?': 'vecown+null'}.get(c.ret, c.ret)
        if c.copy is not None:
            ret = 'own'
        return ret or '', pm
    if c is not None and hasattr(c, 'ret'):
        return c.ret, getattr(c, 'modes', {})
    if c is not None:
        return None
    return '', {}
