"""The protocol of calls: frames, profiling blocks, tail calls, arguments.

Functions that push or pop frames of the value stack, enter or exit profiling
blocks, or run the code of a function value are evaluated on abstract terms;
every way through is replayed against the protocol.
"""
import fe, terms, core
from terms import Rep, Unsupported, add, lin, mklin, ZERO

POP = {'FblePopFrame'}
ENTER, EXIT, REPLACE = 'FbleProfileEnterBlock', 'FbleProfileExitBlock', 'FbleProfileReplaceBlock'
RUN = ['FbleValueHeap*', 'FbleProfileThread*', 'FbleFunction*', 'FbleValue**']
OPS = {'FblePushFrame', 'FblePopFrame', ENTER, EXIT, REPLACE}


def indirect_run(n):
    """Whether a call expression goes through a field called run."""
    if n.k != 'CallExpr' or not n.c:
        return False
    f = n.c[0]
    while f.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and f.c:
        f = f.c[-1]
    return f.k == 'MemberExpr' and getattr(f, 'name', None) == 'run'


class Protocol(object):
    def __init__(self, tu, rules=None):
        self.tu = tu
        self.rules = rules
        self.push = {'FblePushFrame'}
        f = tu.functions.get('FblePushFrame')
        if f is not None and f.body is not None:
            for n in fe.walk(f.body):
                c = fe.callee(n) if n.k == 'CallExpr' else None
                if c and c in tu.functions and tu.functions[c].static:
                    self.push.add(c)
        self.compact = set()
        for name, g in tu.functions.items():
            ps = [(p[1] or '').replace(' ', '') for p in g.params]
            if g.static and g.body is not None and ps[:1] == ['FbleValueHeap*'] and 'FbleValue**' in ps and (g.ret or '').strip() == 'void' and \
                    any(n.k == 'CallExpr' and fe.callee(n) in self.push for n in fe.walk(g.body)) and not any(indirect_run(n) for n in fe.walk(g.body)):
                self.compact.add(name)
        self.ops = OPS | self.push | self.compact | {'FbleCall', 'FbleTailCall'}
        self.defs = {n for n in tu.functions if tu.functions[n].body is not None and n in self.ops - {'FbleCall', 'FbleTailCall'}}

    def own(self, name):
        f = self.tu.functions.get(name)
        return f is not None and f.body is not None and not (f.file or '').startswith('/')

    def roots(self):
        calls, direct = {}, set()
        for name, f in self.tu.functions.items():
            if not self.own(name) or name in self.defs:
                continue
            calls[name] = set()
            for n in fe.walk(f.body):
                if n.k == 'CallExpr':
                    c = fe.callee(n)
                    if c in ('FbleNewProfileThread', 'setrlimit', 'FbleTailCall') and self.own('FblePushFrame'):
                        direct.add(name)
                    if c in ('FbleCall', 'FbleTailCall') and [(p[1] or '').replace(' ', '') for p in f.params] == RUN:
                        direct.add(name)
                    if c in OPS | self.push | self.compact or indirect_run(n):
                        direct.add(name)
                    if c == 'memcpy' and any(x.k == 'DeclRefExpr' and x.name == 'gTailCallData' for x in fe.walk(n)):
                        direct.add(name)
                    if c and self.own(c):
                        calls[name].add(c)
        reach = set(direct)
        grow = True
        while grow:
            grow = False
            for name in calls:
                if name not in reach and any(c in reach and self.tu.functions[c].static for c in calls[name]):
                    reach.add(name); grow = True
        out = []
        for name in sorted(reach):
            f = self.tu.functions[name]
            if not f.static or not any(name in calls[c] for c in calls if c != name) or name in calls[name]:
                out.append(name)
        return out

    # -- one way through ------------------------------------------------------------
    def check(self, name):
        f = self.tu.functions[name]
        self.heap = any('FbleValueHeap' in (p[1] or '') for p in f.params)
        opaque = set(self.ops)
        opaque.discard(name)
        ev = terms.Eval(self.tu, opaque=opaque)
        ev.exact = True
        self.found = []
        self.n = 0
        for kind, st, v in ev.function(name):
            self.n += 1
            self.path(name, f, kind, st, v)
        return self.n, self.found

    def bad(self, rule, line, msg):
        if self.rules is not None and rule not in self.rules:
            return
        if (rule, line, msg) not in self.found:
            self.found.append((rule, line, msg))

    def path(self, name, f, kind, st, v):
        S = {'frames': ZERO, 'prof': ZERO, 'made': [], 'dead': {}, 'runs': [], 'block': None, 'sent': None, 'compact': False, 'calls': {}, 'line': f.line, 'saved': None, 'compacted': False, 'deadargs': set(), 'argvs': {}}
        S['live'] = self.truth(st)
        self.events(st.events, st, S)
        if S['frames'] != ZERO:
            self.bad('frames', S['line'], 'a frame is %s on a way out of %s' % ('not popped' if lin(S['frames'])[0] > 0 else 'popped that was not pushed', name))
        if S['prof'] != ZERO:
            self.bad('profile', S['line'], 'a profiling block is %s on a way out of %s' % ('not exited' if lin(S['prof'])[0] > 0 else 'exited that was not entered', name))
        if v is not None:
            self.uses((v,), S, S['line'], 'returned')
        self.limit(name, f, st)
        last = S['calls'].get(v)
        if S['sent'] is not None and not (last is not None and last[1] == 'FbleTailCall'):
            self.bad('tail', S['sent'], 'a pending tail call is never made')
        if last is not None and last[1] == 'FbleCall' and [(p[1] or '').replace(' ', '') for p in f.params] == RUN:
            self.bad('tail', last[4][1], 'code that is run for a function ends by calling another rather than with a tail call, which uses the machine stack')
        if any(isinstance(e, Rep) and self.runs_in(e) for e in st.events):
            self.nested(S)
        self.applied(S, st)
        self.stored(S, st, v)

    def runs_in(self, r):
        return any(self.runs_in(e) if isinstance(e, Rep) else e[0] == 'call' and isinstance(e[1], tuple) and "'run'" in str(e[1]) for p in r.paths for e in p.events)

    def nested(self, S):
        """Where pending calls are made in turn, none is made by calling."""
        for c in S['calls'].values():
            if c[1] == 'FbleCall' and len(c[2]) >= 5 and c[2][2] in S['runs']:
                undefined = any(x[1] == 'FbleFuncValueFunction' and x[2] and x[2][0] == c[2][2] and S['live'].get(x[3], {}).get('nz') is False for x in S['calls'].values())
                if not undefined:
                    self.bad('tail', c[4][1], 'the result of a tail call is applied to the rest of its arguments by calling it, which uses the machine stack')

    def limit(self, name, f, st):
        """Evaluation starts with all the machine stack there may be."""
        evs = [e for e in st.events if not isinstance(e, Rep) and e[0] == 'call']
        if not self.own('FblePushFrame') or not any(e[1] == 'FbleNewProfileThread' for e in evs) or not any(e[1] == 'FbleCall' for e in evs):
            return
        raised = None
        for e in evs:
            if e[1] == 'setrlimit':
                cells = dict((tuple(x[1] for x in p), v) for p, v in e[2][1][1]) if e[2][1][0] == 'ref' else None
                cur = cells.get(('rlim_cur',)) if cells is not None else ('any',)
                raised = cur is not None and (cur[0] == 'any' or "'rlim_max'" in str(cur))
            if e[1] == 'FbleCall' and not raised:
                self.bad('tail', e[4][1], 'evaluation starts with a limit on the machine stack that could be raised')
        if raised:
            self.bad('tail', f.line, 'the limit on the machine stack is left raised')

    def truth(self, st):
        """What a path knows of each result: absent, present, sentinel."""
        d = {}
        for k, b in st.cons.items():
            if k[0] == 'nz' and k[1][0] == 'res':
                d.setdefault(k[1], {})['nz'] = b
            if k[0] == 'eq':
                for x, y in ((k[1], k[2]), (k[2], k[1])):
                    if x[0] == 'res':
                        if 'entinel' in str(y):
                            d.setdefault(x, {})['sent'] = b
                        if y == ZERO:
                            d.setdefault(x, {})['nz'] = not b
        return d

    def uses(self, vals, S, line, how):
        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == 'res' and t in S['dead']:
                    self.bad('frames', line, 'the value obtained at line %d is %s after its frame is popped' % (S['dead'][t], how))
                    return
                if t and t in S['deadargs']:
                    self.bad('frames', line, 'the arguments of a function are %s after the frame that holds them is popped' % how)
                    return
                for x in t:
                    go(x)
        go(vals)

    def sentinels(self, vals, S, line):
        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == 'res':
                    d = S['live'].get(t, {})
                    if t in S['runs'] and d.get('sent') is not False:
                        self.bad('tail', line, 'the result of the function run is taken for a value though it may stand for a tail call')
                    return
                for x in t:
                    go(x)
        go(vals)

    def value_result(self, e):
        if isinstance(e[1], tuple):
            return str(e[1]).endswith("(('f', 'executable'), ('f', 'run'))))") or "'run'" in str(e[1])
        g = self.tu.functions.get(e[1]) or self.tu.protos.get(e[1])
        return g is not None and (g.ret or '').replace(' ', '') == 'FbleValue*'

    def events(self, evs, st, S, inrep=False):
        for e in evs:
            if isinstance(e, Rep):
                self.rep(e, st, S)
                continue
            if e[0] != 'call':
                continue
            nm, args, res, line = e[1], e[2], e[3], e[4][1]
            S['line'] = line
            S['calls'][res] = e
            if nm in self.push:
                S['frames'] = add(S['frames'], ('int', 1))
                S['made'].append(set())
                if S['sent'] is not None:
                    self.bad('tail', line, 'a frame is pushed for a tail call')
                continue
            if nm in POP:
                self.uses(args, S, line, 'used')
                self.sentinels(args, S, line)
                S['frames'] = add(S['frames'], ('int', 1), -1)
                if lin(S['frames'])[0] < 0 and not lin(S['frames'])[1]:
                    self.bad('frames', line, 'a frame is popped that was not pushed')
                    S['frames'] = ZERO
                if S['compacted'] and S['runs']:
                    S['deadargs'].add(S['argvs'][S['runs'][-1]][2][3])
                    S['compacted'] = False
                if S['made']:
                    for r in S['made'].pop():
                        S['dead'][r] = S['calls'][r][4][1]
                if S['made']:
                    S['made'][-1].add(res)
                continue
            if nm in self.compact:
                self.uses(args, S, line, 'used')
                S['compact'] = True
                S['compacted'] = True
                S['saved'] = (args[3], args[2]) if len(args) > 3 else None
                if S['frames'] == ZERO:
                    self.bad('frames', line, 'the frame of the caller is compacted')
                # what was made before and not saved is gone
                if S['made']:
                    for r in S['made'][-1]:
                        S['dead'][r] = S['calls'][r][4][1]
                    S['made'][-1] = set()
                continue
            if nm in (ENTER, EXIT, REPLACE):
                if self.heap and not self.guarded(args[0], st):
                    self.bad('profile', line, '%s is called when there may be no profile' % nm)
                if nm == ENTER:
                    S['prof'] = add(S['prof'], ('int', 1))
                elif nm == EXIT:
                    S['prof'] = add(S['prof'], ('int', 1), -1)
                if nm != ENTER and lin(S['prof'])[0] < (0 if nm == EXIT else 1) and not lin(S['prof'])[1]:
                    self.bad('profile', line, 'a profiling block is %s that was not entered' % ('exited' if nm == EXIT else 'replaced'))
                    S['prof'] = ZERO
                if nm != EXIT and len(args) > 1:
                    if S['block'] is not None and nm == ENTER and self.heap:
                        self.bad('profile', line, 'a profiling block is entered twice for one function')
                    S['block'] = args[1]
                continue
            self.uses(args, S, line, 'used')
            run = isinstance(nm, tuple) and "'run'" in str(nm)
            if run:
                self.run(e, st, S)
                continue
            self.sentinels(args, S, line)
            if nm == 'memcpy' and len(args) == 3:
                self.room(e, st, S)
                if S['compact'] and S['saved'] is not None and args[1] == ('padd', S['saved'][0], ('int', 1)):
                    if args[2][0] and add(terms.mul(add(S['saved'][1], ('int', 1), -1), ('int', 8)), args[2], -1) != ZERO:
                        self.bad('apply', line, 'what is kept in the frame is not the function and its arguments')
            if nm == 'FbleTailCall':
                S['sent'] = line
                S['compact'] = False
            if nm == 'FbleNewFuncValue':
                self.partial(e, st, S)
                S['sent'] = None        # too few arguments: there is nothing to run yet
            if S['sent'] is not None and (nm == 'FbleCall' or self.performs(nm)):
                self.bad('tail', line, 'a tail call is made by calling %s, which uses the machine stack' % nm)
                S['sent'] = None
            if self.value_result(e) and S['made']:
                S['made'][-1].add(res)

    def performs(self, nm):
        g = self.tu.functions.get(nm) if isinstance(nm, str) else None
        return g is not None and g.body is not None and g.static and any(indirect_run(n) for n in fe.walk(g.body))

    def guarded(self, p, st):
        if p[0] == 'res':
            return True
        return st.cons.get(('nz', p)) is True

    def profiled(self, p, st):
        return st.cons.get(('nz', p)) is True

    def same(self, t, S):
        """A term with the function values it was obtained from."""
        if isinstance(t, tuple):
            if t and t[0] == 'res' and t in S['calls'] and S['calls'][t][1] == 'FbleFuncValueFunction':
                return ('func', self.same(S['calls'][t][2], S))
            return tuple(self.same(x, S) for x in t)
        return t

    def run(self, e, st, S):
        nm, args, res, line = e[1], e[2], e[3], e[4][1]
        if S['frames'] == ZERO:
            self.bad('frames', line, 'a function is run without a frame of its own')
        if len(args) >= 4:
            prof, func, argv = args[1], args[2], args[3]
            if self.profiled(prof, st):
                want = ('ld', func, (('f', 'profile_block_id'),))
                if S['block'] is None:
                    self.bad('profile', line, 'a function is run without its profiling block being entered')
                elif self.same(S['block'], S) != self.same(want, S):
                    self.bad('profile', line, 'a function is run in the profiling block of something else')
            code = nm[1] if len(nm) > 1 else None
            if code is not None and code[0] == 'ld' and code[1] != func and code[1][0] == 'res':
                self.bad('apply', line, 'the code of one function is run for another')
            if 'gTailCallData' in str(argv) and argv[0] in ('padd', 'ld', 'gl', 'addr'):
                self.bad('apply', line, 'the arguments of a function are overwritten by the tail calls it makes')
            if argv[0] == 'padd' and argv[1][0] == 'res' and 'ReAlloc' in str(argv[1]):
                self.bad('apply', line, 'the arguments of a function are overwritten by the tail calls it makes')
        if S['sent'] is not None and not S['compact']:
            self.bad('tail', line, 'a tail call is made without reclaiming the frame of its caller')
        S['sent'] = None
        S['compact'] = False
        S['block'] = None
        S['runs'].append(res)
        S['made'][-1].add(res) if S['made'] else None
        d = S['live'].get(res, {})
        if d.get('sent'):
            S['sent'] = line
        S['argvs'][res] = e

    def rep(self, r, st, S):
        for p in r.paths:
            T = {k: (list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else set(x) if isinstance(x, set) else x) for k, x in S.items()}
            T['made'] = [set(x) for x in S['made']]
            T['live'] = self.truth(p)
            self.events(p.events, p, T)
            self.applied(T, p)
            if any(x in T['runs'] and x not in S['runs'] for x in T['runs']):
                self.nested(T)
            df = add(T['frames'], S['frames'], -1)
            dp = add(T['prof'], S['prof'], -1)
            if df != ZERO:
                self.bad('frames', T['line'], 'frames are %s in each round of a loop' % ('pushed' if lin(df)[0] > 0 else 'popped'))
            if dp != ZERO and (r.n is None or len(r.paths) != 1):
                self.bad('profile', T['line'], 'profiling blocks are %s in each round of a loop' % ('entered' if lin(dp)[0] > 0 else 'exited'))
            elif dp != ZERO and dp[0] == 'int':
                S['prof'] = add(S['prof'], terms.mul(dp, r.n))
            if S['sent'] is not None and (T['sent'] is not None or T['runs'] != S['runs']):
                S['_sent'] = T['sent']
        if '_sent' in S:
            # the loop makes the pending call; what follows is its last round
            S['sent'] = S.pop('_sent')

    def facts(self, k, b):
        """What a condition says, as terms that are not negative."""
        if k[0] == 'lt':
            return [add(add(k[2], k[1], -1), ('int', 1), -1)] if b else [add(k[1], k[2], -1)]
        if k[0] == 'eq' and b:
            d = add(k[1], k[2], -1)
            return [d, terms.mul(d, ('int', -1))]
        if k[0] == 'nz' and not b:
            return [k[1], terms.mul(k[1], ('int', -1))]
        return []

    def room(self, e, st, S):
        """What is copied into the space of a pending call fits."""
        dst, n, line = e[2][0], e[2][2], e[4][1]
        base, off = (dst[1], dst[2]) if dst[0] == 'padd' else (dst, ZERO)
        need = add(terms.mul(off, ('int', 8)), n)
        if base[0] == 'res' and 'ReAlloc' in str(base[2]) and base in S['calls']:
            c = S['calls'][base]
            if 'gTailCallData' not in str(c[2][0]) and not (c[2][0][0] == 'res' and 'ReAlloc' in str(c[2][0])):
                return
            room = add(c[2][1], need, -1)
            left = [room] + [add(room, terms.mul(f, ('int', 8)), -1) for k, b in st.cons.items() for f in self.facts(k, b)]
        elif base[0] == 'ld' and base[1] == ('gl', 'gTailCallData') and base[2] and base[2][-1] == ('f', 'func_and_args'):
            cap = ('ld', base[1], base[2][:-1] + (('f', 'capacity'),))
            left = []
            for k, b in st.cons.items():
                for f in self.facts(k, b):
                    c, m = lin(f)
                    if m.get(cap) == 1:
                        # capacity >= capacity - f
                        left.append(add(terms.mul(add(cap, f, -1), ('int', 8)), need, -1))
            if not left:
                self.bad('apply', line, 'arguments are stored without making room for them')
                return
        else:
            return
        if not any(x[0] == 'int' and x[1] >= 0 for x in left):
            self.bad('apply', line, 'more arguments are stored than there is room for')

    def partial(self, e, st, S):
        """A function with some of its arguments waits for the others."""
        args, line = e[2], e[4][1]
        if len(args) < 4 or args[1][0] not in ('ref', 'agg'):
            return
        d = {p[-1][1]: x for p, x in args[1][1] if p and p[-1][0] == 'f'}
        a, s = d.get('num_args'), d.get('num_statics')
        if a is None or s is None:
            return
        t = [x for x in lin(a)[1] if x[0] == 'ld' and x[2] and x[2][-1] == ('f', 'num_args')]
        if len(t) != 1 or lin(a)[1][t[0]] != 1:
            return
        if add(a, s) != add(t[0], ('int', 1)):
            self.bad('apply', line, 'a function given some of its arguments does not wait for just the others')
        w = args[3]
        if w[0] == 'out' and w[1] == 'memcpy' and len(w[2]) >= 2 and add(terms.mul(add(s, ('int', 1), -1), ('int', 8)), w[2][-1], -1) != ZERO:
            self.bad('apply', line, 'a function given some of its arguments does not keep just those')

    def stored(self, S, st, v=None):
        """The arguments of a pending call are where it looks for them."""
        last = None
        for c in S['calls'].values():
            if c[1] == 'memcpy' and len(c[2]) == 3:
                dst = c[2][0]
                base, off = (dst[1], dst[2]) if dst[0] == 'padd' else (dst, ZERO)
                if base[0] == 'ld' and base[1] == ('gl', 'gTailCallData') or \
                        base[0] == 'res' and 'ReAlloc' in str(base[2]) and base in S['calls'] and 'gTailCallData' in str(S['calls'][base][2][0]):
                    last = (off, c)
        if last is None:
            return
        off, c = last
        argc = st.mem.get((('gl', 'gTailCallData'), (('f', 'argc'),)))
        if off == ZERO:
            self.bad('apply', c[4][1], 'arguments are stored where the function of a pending call is kept')
        elif 'entinel' in str(v) and argc is not None and "'any'" not in str(argc):
            d = add(add(terms.mul(add(argc, ('int', 1)), ('int', 8)), terms.mul(off, ('int', 8)), -1), c[2][2], -1)
            if d != ZERO:
                self.bad('apply', c[4][1], 'the arguments stored for a pending call are not as many as it counts')

    def applied(self, S, st):
        """Arguments beyond those a function takes go to its result."""
        live = S['live']
        for res, e in S['argvs'].items():
            if res not in live and res not in S['runs']:
                continue
            d = live.get(res, {})
            line = e[4][1]
            uses = [c for c in S['calls'].values() if c[1] in ('FbleCall', 'FbleTailCall') and len(c[2]) >= 5]
            popped = [c[3] for c in S['calls'].values() if c[1] in POP and res in c[2]]
            mine = [c for c in uses if c[2][2] == res or c[2][2] in popped]
            if d.get('nz') is False:
                if mine:
                    self.bad('abort', mine[0][4][1], 'an aborted call is applied to arguments')
                continue
            if d.get('sent') is not False:
                continue
            for c in mine:
                if c[1] == 'FbleTailCall' and self.same(c[2][1], S) != ('func', self.same((c[2][2],), S)):
                    self.bad('apply', c[4][1], 'the function of a tail call is not that of the value called')
                if d.get('nz') is not True:
                    self.bad('abort', c[4][1], 'the result of a call is applied to arguments though the call may have been aborted')
                # the rest of the arguments
                taken = ('ld', e[2][2], (('f', 'executable'), ('f', 'num_args')))
                a = c[2][4]
                if a[0] == 'padd' and self.same(a[2], S) != self.same(taken, S):
                    self.bad('apply', c[4][1], 'the arguments handed on do not start after those the function takes')
                elif a[0] != 'padd' and (a == e[2][3] or a[0] == 'out' and a[1] == e[1]):
                    self.bad('apply', c[4][1], 'arguments the function takes are handed on again')
                n = c[2][3]
                m = lin(n)[1]
                if self.same(tuple(m), S) and not any(self.same(k, S) == self.same(taken, S) and x == -1 for k, x in m.items()):
                    self.bad('apply', c[4][1], 'the number of arguments handed on is not what the function leaves')
                elif lin(n)[0] != 0:
                    self.bad('apply', c[4][1], 'the number of arguments handed on is off by %d' % lin(n)[0])
            if not mine:
                # nothing left over must be known
                taken = self.same(('ld', e[2][2], (('f', 'executable'), ('f', 'num_args'))), S)
                known = False
                for k, b in st.cons.items():
                    for f in self.facts(k, b):
                        c, m = lin(f)
                        if c <= 0 and any(x == 1 and self.same(t, S) == taken for t, x in m.items()):
                            known = True
                if not known:
                    self.bad('apply', line, 'arguments beyond those the function takes are dropped')


def protocol(rules=None):
    """Findings over all sources that take part."""
    out = []
    gen = fe.Gen()
    try:
        for rel in fe.sources():
            text = open(fe.REPO + '/' + rel).read() if not rel.endswith('.y') else ''
            if not any(o in text for o in OPS) and '->run(' not in text:
                continue
            if rel.startswith('test/') or rel in ('lib/profile.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c', 'lib/link.c'):
                continue        # the operations themselves, and what only emits or is compared elsewhere
            try:
                tu = fe.TU(rel, gen)
            except fe.Broken as x:
                out.append({'rel': rel, 'func': '*', 'status': 'broken', 'why': str(x)[:200], 'violations': [], 'stats': {}, 'samples': []})
                continue
            P = Protocol(tu, rules)
            for name in P.roots():
                r = {'rel': rel, 'func': name, 'status': 'ok', 'violations': [], 'stats': {'ways': 0}, 'samples': []}
                out.append(r)
                try:
                    n, found = P.check(name)
                except (Unsupported, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as x:
                    r['status'] = 'undecided'; r['why'] = str(x)[:200]
                    continue
                r['stats']['ways'] = n
                for rule, line, msg in found:
                    r['violations'].append({'rule': rule, 'file': rel, 'line': line, 'function': name, 'root': name, 'msg': msg, 'path': ''})
    finally:
        gen.close()
    return out


if __name__ == '__main__':
    for r in protocol():
        print(r['rel'], r['func'], r['status'], r['stats'], r.get('why', ''))
        for v in r['violations']:
            print('    ', v['rule'], v['line'], v['msg'])
