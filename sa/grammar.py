"""Ownership of semantic values in the bison grammar.

Every reduction action is analysed on its own: the semantic values on its
right hand side are owned by the action, what it leaves in $$ is owned by the
stack.  Every destructor must release what the symbols it covers own."""
import os
import xml.etree.ElementTree as ET
from engine import Engine, SV, NULL, DC, UN, State
import own
from fe import walk, Broken, N


class Rule(object):
    pass


def load(gen):
    gen.bison()
    g = ET.parse(gen.dir + '/parse.xml').getroot().find('grammar')
    types, nums = {}, {}
    for s in list(g.find('terminals')) + list(g.find('nonterminals')):
        types[s.get('name')] = s.get('type') or None
        nums[int(s.get('symbol-number'))] = s.get('name')
    rules = []
    for r in g.find('rules'):
        x = Rule()
        x.no = int(r.get('number'))
        x.lhs = r.find('lhs').text
        x.rhs = [s.text for s in r.find('rhs').findall('symbol')]
        x.ltype = types.get(x.lhs)
        x.rtypes = [types.get(s) for s in x.rhs]
        rules.append(x)
    return types, nums, rules


def cases(fn, pred):
    """{key: case body} of the switch whose case labels satisfy pred."""
    out = {}
    for n in walk(fn.body):
        if n.k != 'SwitchStmt':
            continue
        body = n.c[-1]
        if body is None or body.k != 'CompoundStmt':
            continue
        for c in body.c:
            if c.k == 'CaseStmt':
                v = c.c[0]
                while v is not None and v.k in ('ImplicitCastExpr', 'ConstantExpr'):
                    v = v.c[0]
                k = pred(v)
                if k is not None:
                    out[k] = c.c[-1]
        if out:
            return out
    return out


def part(eng, T):
    return [(p, lt) for p, lt in eng.leaves('YYSTYPE') if p[0] == 'YYSTYPE.' + T]


def give(eng, st, root, T, owned=True):
    for p, lt in part(eng, T):
        cs = eng.cellspec(p)
        if lt[0] == 'ptr':
            isown = owned and (cs == 'own' or type(cs) is tuple)
            esp = cs[1] if type(cs) is tuple else None
            v = eng.newsym(st, lt, own=1 if isown else 0, b=not isown, esp=esp, neq=frozenset([0]) if type(cs) is not tuple else frozenset())
            st.store[(root, p)] = v
            if p[-1].endswith('.xs'):
                st.memo[('sizeof', v)] = (root, p[:-1] + (p[-1][:-3] + '.size',))
        elif lt[0] in ('int', 'enum'):
            st.store[(root, p)] = eng.newsym(st, lt)
        else:
            st.store[(root, p)] = DC


def locals_of(body):
    return set(d.id for n in walk(body) if n.k == 'DeclStmt' for d in n.c if d is not None and d.k == 'VarDecl')


def run_rule(tu, spec, rule, body, hooks=()):
    eng = Engine(tu, spec)
    eng.hooks = list(hooks)
    f = tu.functions['yyparse']
    eng.cur = f
    eng.cur_name = '%s: %s' % (rule.lhs, ' '.join(rule.rhs) or '%empty')
    eng.frames = [{}]
    eng.swentry = []
    eng.stack = [eng.cur_name]
    st = State()
    frame = eng.frames[0]
    own.setup_params({})(eng, st, f, _params(eng, f, frame))
    inner = locals_of(body)
    refs = {}
    for n in walk(body):
        if n.k == 'DeclRefExpr' and n.val == 'VarDecl' and n.ref not in inner:
            refs[n.name] = n.ref
    roots = {}
    n = len(rule.rhs)
    vsp = {}
    for i in range(n):
        r = ('L', 1, 'v%d' % (i + 1), '$%d' % (i + 1))
        vsp[i + 1 - n] = r
        if rule.rtypes[i]:
            give(eng, st, r, rule.rtypes[i])
        eng.ltypes[r] = ('rec', 'YYSTYPE')
    eng.vsp = {}
    if 'yyvsp' in refs:
        eng.vsp[refs['yyvsp']] = vsp
    lsp = {}
    for i in range(n):
        r = ('L', 1, 'l%d' % (i + 1), '@%d' % (i + 1))
        lsp[i + 1 - n] = r
        loc(eng, st, r)
    if 'yylsp' in refs:
        eng.vsp[refs['yylsp']] = lsp
    yv = ('L', 1, 'yyval', '$$')
    eng.ltypes[yv] = ('rec', 'YYSTYPE')
    if 'yyval' in refs:
        frame[refs['yyval']] = yv
    if n and rule.rtypes[0] and rule.rtypes[0] == rule.ltype:
        for p, lt in part(eng, rule.ltype):
            st.store[(yv, p)] = st.store[(vsp[1 - n], p)]
    else:
        for p, lt in eng.leaves('YYSTYPE'):
            st.store[(yv, p)] = UN
    yl = ('L', 1, 'yyloc', '@$')
    if 'yyloc' in refs:
        frame[refs['yyloc']] = yl
        loc(eng, st, yl)
    eng.gotos = []
    o = eng.exec(body, [st])
    node = N('exit')
    node.file, node.line = body.file, body.line
    for s in o.n + o.b + [x for x, _ in o.r]:
        hold = []
        if rule.ltype:
            for p, lt in part(eng, rule.ltype):
                v = s.store.get((yv, p), UN)
                v = eng.cur_val(s, v)
                if v == UN and lt[0] in ('ptr', 'int', 'enum'):
                    eng.viol(s, 'uninit-read', node, '$$ of %s is not set' % eng.cur_name, key='uy')
                    continue
                cs = eng.cellspec(p)
                if cs == 'own' or type(cs) is tuple:
                    hold.append(v)
                    if type(cs) is tuple and v[0] == 'p' and v[1][0] in s.objs and s.objs[v[1][0]].esp is None:
                        s.objs[v[1][0]] = s.objs[v[1][0]].upd(esp=cs[1])
        end(eng, s, hold, node)
    for s, gn in eng.gotos:
        node = N('exit')
        node.file, node.line = gn.file or body.file, gn.line or body.line
        end(eng, s, [], node)
    return eng


def end(eng, s, hold, node):
    arrays = own.array_objs(s)
    for loc in [l for l in s.store if isinstance(l[0], tuple) and l[0][0] == 'L']:
        del s.store[loc]
    own.balance(eng, s, hold, node)
    own.uninit_fields(eng, s, node, arrays)
    for h in eng.hooks:
        h.on_return(eng, s, DC, node)


def loc(eng, st, root):
    for p, lt in eng.leaves('FbleLoc'):
        if lt[0] == 'ptr':
            st.store[(root, p)] = eng.newsym(st, lt, own=0, b=True, neq=frozenset([0]))
        else:
            st.store[(root, p)] = eng.newsym(st, lt) if lt[0] in ('int', 'enum') else DC


def _params(eng, f, frame):
    for (pname, pty, pid, _) in f.params:
        frame[pid] = ('L', 1, pid, pname)
        eng.ltypes[frame[pid]] = eng.T.parse(pty)
    return frame


def run_destructor(tu, spec, sym, T, body, hooks=()):
    eng = Engine(tu, spec)
    eng.hooks = list(hooks)
    f = tu.functions['yydestruct']
    eng.cur = f
    eng.cur_name = 'destructor of %s' % sym
    eng.frames = [{}]
    eng.swentry = []
    eng.stack = [eng.cur_name]
    st = State()
    frame = eng.frames[0]
    _params(eng, f, frame)
    r = ('L', 1, 'value', '$$')
    eng.ltypes[r] = ('rec', 'YYSTYPE')
    for (pname, pty, pid, _) in f.params:
        t = eng.T.parse(pty)
        if t == ('ptr', ('rec', 'YYSTYPE')):
            st.store[(frame[pid], ())] = ('p', (r, ()))
        elif t[0] == 'ptr':
            st.store[(frame[pid], ())] = eng.newsym(st, t, own=0, b=True, neq=frozenset([0]))
        else:
            st.store[(frame[pid], ())] = DC
    give(eng, st, r, T)
    eng.gotos = []
    o = eng.exec(body, [st])
    node = N('exit')
    node.file, node.line = body.file, body.line
    for s in o.n + o.b + [x for x, _ in o.r]:
        end(eng, s, [], node)
    return eng


def analyse(tu, spec, gen, hooks=lambda: ()):
    """[(name, engine)] for every action and destructor; plus missing destructors."""
    types, nums, rules = load(gen)
    if 'yyparse' not in tu.functions or 'yydestruct' not in tu.functions:
        raise Broken('no yyparse in the generated parser')
    acts = cases(tu.functions['yyparse'], lambda v: int(v.val) if v is not None and v.k == 'IntegerLiteral' else None)
    dests = cases(tu.functions['yydestruct'], lambda v: tu.enum_val.get(v.name) if v is not None and v.k == 'DeclRefExpr' else None)
    out = []
    by = {r.no + 1: r for r in rules}   # bison counts from one
    for no in sorted(acts):
        if no in by:
            out.append((lambda r=by[no], b=acts[no]: run_rule(tu, spec, r, b, hooks())))
    missing = []
    probe = Engine(tu, spec)
    for num, sym in sorted(nums.items()):
        T = types.get(sym)
        if not T:
            continue
        owns = any(lt[0] == 'ptr' and (probe.cellspec(p) == 'own' or type(probe.cellspec(p)) is tuple) for p, lt in part(probe, T))
        if num in dests:
            out.append((lambda s=sym, t=T, b=dests[num]: run_destructor(tu, spec, s, t, b, hooks())))
        elif owns:
            missing.append(sym)
    return out, missing, rules, acts
