"""Further tables of what has to be known of what functions do (rules.py)."""
import copy, itertools, re
import terms
from rules import Fn, Case, Any, All, Each, Every, Ends, Late, Once, Order, Part, Stops

L = 'lib/load.c'
CONSULT = ('access', 'fopen', 'open', 'stat', 'lstat', 'opendir', 'freopen', 'openat', 'readlink', 'faccessat')


def loading():
    """Files consulted while loading, and where they are recorded."""
    calls = ['no call %s(~' % f for f in CONSULT]
    return [
        Fn(L, 'FindAt', ['root', 'path', 'build_deps'], [
            Case('a file that is found', [], 'return FbleNewString($f)', Any('!access($f, ~)', '!stat($f, ~)', 'fopen($f, ~)'),
                 Any('!build_deps', All('build_deps.xs[build_deps.size] := FbleNewString($f)', 'build_deps.size := build_deps.size+1')))],
           domain={'$f': r'(?:access|fopen|stat)\((.*), [^,]*\)'}, only=[]),
        Fn(L, 'Find', ['search_path', 'path', 'build_deps'], [
            Case('a module that is found', [],
                 Any('return FindAt(~, path, build_deps)', All(Any("return $r'", 'return $r'), 'somewhere next($r) = FindAt(~, path, build_deps)')),
                 Every(r'call FindAt\(.*, (?P<d>\w+)\)', d='build_deps'), *calls)], only=['FindAt']),
        Fn(L, 'FbleLoad', ['search_path', 'module_path', 'build_deps'], [
            Case('loading', [], Every(r'call Find\(search_path, (?P<p>.*), \w+\)', p=r'module_path|(.*)\.module\.deps\.xs\[.*\]'), Every(r'call Find\((.*), (?P<d>\w+)\)', d='build_deps'), Every(r'call FindAt\((.*), (?P<d>\w+)\)', d='build_deps'),
                 Every(r'call FbleParse\((?P<f>.*?), &.*\)', f=r'Find\(search_path, .*, build_deps\)'),
                 Every(r'call FbleParse\(Find\(search_path, (.*), build_deps\), &(.*)\.module\.deps\)', '$2.module.path := $1',
                       '$2.module.value := FbleParse(Find(search_path, $1, build_deps), &$2.module.deps)'), *calls)], only=['FindAt', 'Find'], ways='all'),
        Fn('lib/parse.y', 'FbleParse', ['filename', 'deps'], [
            Case('a program', [], Every(r'call fopen\((?P<f>.*), .*\)', f=r'&filename\.str\[0\]'), *[c for c in calls if 'fopen' not in c])], ways='all', only=[]),
        Fn(L, 'FbleSaveBuildDeps', ['fout', 'target', 'build_deps'], [
            Case('saving', [], 'emit fout "{target}:~', Each('build_deps.size', 'emit fout "~{&build_deps.xs[i].str[0]}~'))], ways='all', only=[]),
        Fn('bin/fble-deps.c', 'main', ['argc', 'argv'], [
            Case('a run', [], Any('no call FbleSaveBuildDeps(~', Every(r'call FbleSaveBuildDeps\(stdout, (.*?), (?P<d>.*)\)', d=r'out:FbleLoad\(.*\)')),
                 Any('no call FbleLoad(~', 'call FbleSaveBuildDeps(stdout, ~'), 'no call FbleLoad(~, 0)')], ways='all', only=[]),
    ]


V = 'lib/value.c'


def values():
    """References between runtime values: tracing, moving, collecting."""
    def unmarked(x):
        return ['(%s & 1)' % x, '!' + x, x + '.h.gc.gen < gc.min_gen', x + '.h.gc.gen == gc.gen']
    mark = lambda x: Any('call MarkRef(gc, ~, %s)' % x, 'call MoveTo(&gc.marked, %s)' % x, *unmarked(x))
    new = lambda x: Any('(value & 1)', '!value', 'value.loc == GC_ALLOC', 'value.h.stack.gc', x)
    NS = 'NewGcValueRaw(heap, value.h.stack.frame, %d, 8*value.fieldc+sizeof[StructValue])'
    fresh = lambda T, n: 'NewGcValueRaw(heap, value.h.stack.frame, %s, %s)' % (T, n)
    S, U = fresh(0, '8*value.fieldc+sizeof[StructValue]'), fresh(1, 'sizeof[UnionValue]')
    F = fresh(2, '8*value.function.executable.num_statics+sizeof[FuncValue]')
    top, P = 'heap.top', 'GcRealloc(heap, value)'
    young = lambda x: All(x + '.h.gc.gen >= heap.gc.min_gen', x + '.h.gc.gen != heap.gc.gen', x + '.h.gc.gen < heap.gc.max_gen')
    old = lambda x: Any('(%s & 1)' % x, '!' + x, x + '.h.gc.gen < heap.gc.min_gen', x + '.h.gc.gen == heap.gc.gen', x + '.h.gc.gen >= heap.gc.max_gen')
    C = 'GcRealloc(heap, save[i])'
    ns = 'NewValueRaw(heap, 0, 8*argc+sizeof[StructValue])'
    nu = 'NewValueRaw(heap, 1, sizeof[UnionValue])'
    nf = 'NewValueRaw(heap, 2, 8*executable.num_statics+sizeof[FuncValue])'
    nr = 'NewGcValueRaw(heap, heap.top, 3, sizeof[RefValue])'
    nn = 'NewGcValueRaw(heap, heap.top, 4, sizeof[NativeValue])'
    MOVE = ['MoveTo', 'MoveAllTo', 'GcRealloc', 'NewGcValueRaw']
    return [
        Fn(V, 'MarkRef', ['gc', 'src', 'dst'], [Case('a reference', [], Any('call MoveTo(&gc.marked, dst)', *unmarked('dst')))], ways='all', only=['MoveTo']),
        Fn(V, 'MarkRefs', ['gc', 'value'], [
            Case('a struct', ['value.tag == STRUCT_VALUE'], Each('value.fieldc', mark('value.fields[i]'))),
            Case('a union', ['value.tag == UNION_VALUE'], mark('value.arg')),
            Case('a function', ['value.tag == FUNC_VALUE'], Any(*[Each('value.function.executable.num_statics', mark(x)) for x in ('value.statics[i]', 'value.function.statics[i]')])),
            Case('a reference', ['value.tag == REF_VALUE'], mark('value.value')),
            Case('a native value', ['value.tag == NATIVE_VALUE'])], ways='all', only=['MoveTo', 'MarkRef']),
        Fn(V, 'GcRealloc', ['heap', 'value'], [
            Case('a packed value', ['(value & 1)'], 'return value'),
            Case('no value', ['!value'], Any('return value', 'return 0')),
            Case('a value of the collector', ['value.loc == GC_ALLOC'], Any('return value', 'return 0', '(value & 1)')),
            Case('a value already moved', ['value.loc == STACK_ALLOC', 'value.h.stack.gc'], Any('(value & 1)', '!value', 'value.loc == GC_ALLOC', 'return value.h.stack.gc')),
            Case('a struct', ['value.tag == STRUCT_VALUE'], new(All('return ' + S, 'value.h.stack.gc := ' + S, S + '.fieldc := value.fieldc',
                                                                    Each('value.fieldc', S + '.fields[i] := GcRealloc(heap, value.fields[i])')))),
            Case('a union', ['value.tag == UNION_VALUE'], new(All('return ' + U, 'value.h.stack.gc := ' + U, U + '.tag := value.tag', U + '.arg := GcRealloc(heap, value.arg)'))),
            Case('a function', ['value.tag == FUNC_VALUE'], new(All(
                'return ' + F, 'value.h.stack.gc := ' + F, Any('call memcpy(&%s.function.executable, &value.function.executable, ~' % F, F + '.function.executable := value.function.executable'),
                F + '.function.profile_block_id := value.function.profile_block_id', F + '.function.statics := &%s.statics[0]' % F,
                Any(*[Each(n + '.function.executable.num_statics', F + '.statics[i] := GcRealloc(heap, value.%sstatics[i])' % x) for n in ('value', F) for x in ('', 'function.')]))))],
           ways='all', only=['NewGcValueRaw', 'GcRealloc']),
        Fn(V, 'IncrGc', ['heap'], [
            Case('a marked value', ['Get(&heap.gc.marked)'], 'call MarkRefs(&heap.gc, Get(&heap.gc.marked))', 'Get(&heap.gc.marked).h.gc.gen := heap.gc.gen', 'no call MoveAllTo(~',
                 Any(All('heap.gc.interrupted', 'call MoveTo(&heap.gc.frame.unmarked, Get(&heap.gc.marked))'), All('!heap.gc.interrupted', 'call MoveTo(&heap.gc.frame.alloced, Get(&heap.gc.marked))'))),
            Case('the end of a round', ['!Get(&heap.gc.marked)'], 'call MoveAllTo(&heap.gc.free, &heap.gc.unmarked)', 'no call MarkRefs(~',
                 'somewhere call MoveTo(&heap.gc.frame.marked, heap.gc.save.xs[~])', Ends('!heap.gc.save.xs[~]'),
                 Order(r'MoveAllTo\(&heap.gc.free', r'MoveAllTo\(&heap.gc.(marked|unmarked), '), Order(r'MoveTo\(', r'MoveAllTo\(&heap.gc.(marked|unmarked), '),
                 Any('!heap.gc.next', All('heap.gc.frame := heap.gc.next', 'heap.gc.gen := heap.gc.next.gen', 'heap.gc.min_gen := heap.gc.next.min_gen', 'heap.gc.max_gen := heap.gc.next.max_gen',
                                          'heap.gc.interrupted := 0', 'heap.gc.save.xs := 0', 'call MoveAllTo(&heap.gc.marked, &heap.gc.next.marked)', 'call MoveAllTo(&heap.gc.unmarked, &heap.gc.next.unmarked)',
                                          Any(All('heap.gc.next == heap.top', 'heap.gc.next := 0'), All('heap.gc.next != heap.top', 'heap.gc.next := heap.gc.next.top[-1]')))))],
           ways='all', only=['MoveTo', 'MoveAllTo', 'FreeGcValue', 'MarkRefs', 'Get', 'IsEmpty']),
        Fn(V, 'FblePopFrame', ['heap', 'value'], [
            Case('a merged frame', ['heap.top.merges'], Any('!heap.top.merges', All('return value', 'heap.top.merges := heap.top.merges-1', 'no call MoveAllTo(~', 'no heap.top := ~'))),
            Case('a frame', ['!heap.top.merges'], Any('return ' + P, All('return 0', '!' + P)), 'heap.top := heap.top.caller', *(['call MoveAllTo(&heap.top.caller.unmarked, &heap.top.%s)' % l for l in ('unmarked', 'marked', 'alloced')] + [
                Order(r'GcRealloc\(', r'MoveAllTo\('), 'no GcRealloc sees heap.top = ~',
                Any('(%s & 1)' % P, '!' + P, P + '.h.gc.gen < heap.top.min_gen', All('call MoveTo(&heap.top.caller.marked, %s)' % P, 'heap.top.caller.max_gen := heap.top.max_gen')),
                Any('heap.gc.frame != heap.top', All('heap.gc.interrupted := 1', 'heap.gc.frame := heap.top.caller', Any(
                    All('call MoveTo(&heap.gc.marked, %s)' % P, '~ := ' + P, '~[1] := 0'), All(old(P), 'heap.gc.save.xs := 0')))),
                Any('heap.gc.next := heap.top.caller', All('heap.gc.next', 'heap.gc.next != heap.top')),
                'somewhere heap.chunks := heap.top.chunks', Ends('!heap.top.chunks')]))],
           ways='all', only=MOVE, watch={'GcRealloc': 'top'}),
        Fn(V, 'CompactFrame', ['heap', 'merge', 'n', 'save'], [
            Case('a merged call', ['merge'], Any('!merge', All('no call MoveAllTo(~', 'no call GcRealloc(~', 'no heap~ := ~'))),
            Case('a shared frame', ['!merge', 'heap.top.merges'], Any('merge', '!heap.top.merges', All('call PushFrame(heap, 0)', 'heap.top.merges := heap.top.merges-1', 'no call MoveAllTo(~'))),
            Case('a frame of its own', ['!merge', '!heap.top.merges'], Any('merge', 'heap.top.merges', All(
                Each('n', 'save[i] := ' + C), Order(r'GcRealloc\(', r'Move\w*\('), 'no GcRealloc sees ~',
                'heap.top.gen := heap.top.max_gen', 'heap.top.max_gen := heap.top.max_gen+1',
                'heap.top.top := heap.top[1]', 'heap.top.max := heap.top.caller.max', 'somewhere heap.chunks := heap.top.chunks', Ends('!heap.top.chunks'),
                'call MoveAllTo(&heap.top.unmarked, &heap.top.marked)', 'call MoveAllTo(&heap.top.unmarked, &heap.top.alloced)',
                Each('n', Any('(%s & 1)' % C, '!' + C, C + '.h.gc.gen < heap.top.min_gen', 'call MoveTo(&heap.top.marked, %s)' % C)),
                Order(r'MoveAllTo\(', r'MoveTo\('),
                Any('heap.gc.frame != heap.top', All('heap.gc.interrupted := 1', Each('n', Any(old(C), All('call MoveTo(&heap.gc.marked, %s)' % C, '~[$s] := ' + C, 'next($s) = $s+1'))),
                                                     'init($s) = 0', "~[$s'] := 0",
                                                     Any('heap.gc.save.size >= n+1', All('heap.gc.save.size := n+1', 'heap.gc.save.xs := FbleReAllocRaw(heap.gc.save.xs, 8*n+8)')))),
                Any('heap.gc.next', 'heap.gc.next := heap.top'))))],
           ways='all', only=MOVE + ['PushFrame'], watch={'GcRealloc': ('gen', 'max_gen', 'top', 'max')}),
        Fn(V, 'PushFrame', ['heap', 'merge'], [
            Case('a merged frame', ['merge'], Any('!merge', All('heap.top.merges := heap.top.merges+1', 'no heap.top := ~'))),
            Case('a frame', ['!merge'], Any('merge', All(*(['heap.top := $f', '$f.caller := heap.top', '$f.merges := 0', '$f.min_gen := heap.top.max_gen', '$f.gen := heap.top.max_gen', '$f.max_gen := heap.top.max_gen+1',
                                                            '$f.top := $f[1]', '$f.max := heap.top.max', '$f.chunks := 0'] + ['call Clear(&$f.%s)' % l for l in ('unmarked', 'marked', 'alloced')]))))],
           ways='all', only=['StackAlloc', 'Clear'], domain={'$f': r'heap\.top := (.*)'}),
        Fn(V, 'NewValueRaw', ['heap', 'tag', 'size'], [
            Case('a value', [], *['return StackAlloc(heap, size)'] + ['StackAlloc(heap, size).%s := %s' % x for x in (('h.stack.gc', '0'), ('h.stack.frame', 'heap.top'), ('tag', 'tag'), ('loc', 'STACK_ALLOC'))])],
           ways='all', only=['StackAlloc']),
        Fn(V, 'NewGcValueRaw', ['heap', 'frame', 'tag', 'size'], [
            Case('a value', [], *['return FbleAllocRaw(size)', 'call Clear(&FbleAllocRaw(size).h.gc.list)', 'call MoveTo(&frame.alloced, FbleAllocRaw(size))', Order(r'Clear\(', r'MoveTo\('), Order(r'IncrGc\(', r'MoveTo\('), 'call IncrGc(heap)'] +
                 ['FbleAllocRaw(size).%s := %s' % x for x in (('h.gc.gen', 'frame.gen'), ('tag', 'tag'), ('loc', 'GC_ALLOC'))])],
           ways='all', only=['MoveTo', 'Clear', 'IncrGc']),
        Fn(V, 'FbleNewStructValue', ['heap', 'argc', 'args'], [
            Case('a struct', [], Any('return (~', All('return ' + ns, ns + '.fieldc := argc', Each('argc', ns + '.fields[i] := args[i]'))))], ways='all', only=['NewValueRaw', 'PackedValueLength']),
        Fn(V, 'FbleNewUnionValue', ['heap', 'tag', 'arg'], [
            Case('a union', [], Any('return (~', All('return ' + nu, nu + '.tag := tag', nu + '.arg := arg')))], ways='all', only=['NewValueRaw', 'PackedValueLength']),
        Fn(V, 'FbleNewFuncValue', ['heap', 'executable', 'profile_block_id', 'statics'], [
            Case('a function', [], 'return ' + nf, nf + '.function.profile_block_id := profile_block_id', nf + '.function.statics := &%s.statics[0]' % nf,
                 Any('call memcpy(&%s.function.executable, executable, ~' % nf, nf + '.function.executable := ~'),
                 Any('call memcpy(&%s.statics[0], statics, 8*executable.num_statics)' % nf, *[Each(n, nf + '.statics[i] := statics[i]') for n in ('executable.num_statics', nf + '.function.executable.num_statics')]))],
           ways='all', only=['NewValueRaw']),
        Fn(V, 'FbleNewRefValue', ['heap'], [Case('a reference', [], 'return ' + nr, nr + '.value := 0')], ways='all', only=['NewGcValueRaw']),
        Fn(V, 'FbleNewNativeValue', ['heap', 'data', 'on_free'], [Case('a native value', [], 'return ' + nn, nn + '.data := data', nn + '.on_free := on_free')], ways='all', only=['NewGcValueRaw']),
        Fn(V, 'FbleAssignRefValue', ['heap', 'ref', 'value'], [
            Case('an assignment', [], Any(All('return 0', Any("$v' == ref", 'value == ref'), 'no ref.value := ~'), All('return 1', Any("$v' != ref", 'value != ref'), Any("ref.value := GcRealloc(heap, $v')", 'ref.value := GcRealloc(heap, value)'))))],
           ways='all', only=['GcRealloc']),
        Fn(V, 'FreeGcValue', ['value'], [
            Case('a value', [], Any('!value', 'call FbleFree(value)'), Any('!value', 'value.tag != NATIVE_VALUE', '!value.on_free', 'call *value.on_free(value.data)'))], ways='all', only=[]),
    ]


def fields(t, record, path, known=()):
    """Demands that each field of a record is set; lists may be cleared by a call."""
    out = []
    for f in t.rec_by_name[record].fields:
        ty = (t.typedefs.get(f[1]) or (None, f[1]))[1] or f[1]
        name = f[1] if f[1] in t.rec_by_name else ty.replace('struct ', '').strip()
        x = '%s.%s' % (path, f[0])
        if x in known or '[' in ty:
            continue
        if '*' not in ty and '(' not in ty and name in t.rec_by_name:
            sub = fields(t, name, x)
            out.append(Any('call Clear(&%s)' % x, x + ' := ~', All(*sub)))
        else:
            out.append(x + ' := ~')
    return out


def initial():
    """What the makers of the collectors' own records have to set."""
    import core
    core.load_all([V, T])
    v, t = core.tu(V), core.tu(T)
    word = r'(\w+\([^()]*\))'
    return [
        Fn(V, 'FbleNewValueHeap', [], [
            Case('a new heap', [], *(['return $h'] + fields(v, 'FbleValueHeap', '$h', ['$h.chunks']) + fields(v, 'Frame', '$f') +
                                     ['$h.chunks := ~', '$h.top := $f', '$h.gc.frame := $f', '$h.gc.save.xs := $s', Any('$s := 0', '$s[0] := 0')]))],
           ways='all', only=['Clear'], domain={'$h': word + r'\.gc\.', '$f': r'\.top := ' + word, '$s': r'\.xs := ' + word}),
        Fn(V, 'PushFrame', ['heap', 'merge'], [Case('a frame', [], Any('merge', All(*(['heap.top := $f'] + fields(v, 'Frame', '$f')))))],
           ways='all', only=['StackAlloc', 'Clear'], domain={'$f': r'heap\.top := (.*)'}),
        Fn(V, 'StackAlloc', ['heap', 'size'], [
            Case('memory', [], Any('heap.top.max >= heap.top.top+size', All('heap.top.chunks := $c', *fields(v, 'Chunk', '$c'))))],
           ways='all', only=[], domain={'$c': r'heap\.top\.chunks := (.*)'}),
        Fn(T, 'FbleNewTypeHeap', [], [Case('a new heap', [], *(['return $h'] + fields(t, 'FbleTypeHeap', '$h')))], ways='all', only=['NewGen'], domain={'$h': word + r'\.\w+ := NewGen'}),
        Fn(T, 'NewGen', ['id'], [Case('a generation', [], *(['return $g'] + fields(t, 'Gen', '$g')))], ways='all', only=[], domain={'$g': word + r'\.id := '}),
        Fn(T, 'FbleAllocType', ['heap', 'size'], [Case('a type', [], *(['return &$o.data[0]'] + fields(t, 'Obj', '$o')))],
           ways='all', only=['IncrGc'], domain={'$o': word.replace('[^()]*', '[^()]*') + r'\.gen := '}),
    ]


T = 'lib/type-heap.c'


def lists(file, at, element):
    """The operations on rings: which elements end up where."""
    x = element
    unlink = All('%s.prev.next := %s.next' % (x, x), '%s.next.prev := %s.prev' % (x, x))
    front = All('%s.next := dest.next' % x, '%s.prev := dest' % x, 'dest.next.prev := &' + x, 'dest.next := &' + x)
    back = All('%s.next := dest' % x, '%s.prev := dest.prev' % x, 'dest.prev.next := &' + x, 'dest.prev := &' + x)
    some = [All('dest.next.prev := source.prev', 'source.prev.next := dest.next', 'dest.next := source.next', 'source.next.prev := dest'),
            All('dest.prev.next := source.next', 'source.next.prev := dest.prev', 'dest.prev := source.prev', 'source.prev.next := dest')]
    one = lambda name, *how: Fn(file, name, ['dest', at], [Case('an element', [], unlink, Any(*how))], ways='all', only=[])
    all_ = lambda name, *how: Fn(file, name, ['dest', 'source'], [
        Case('a list', [], Any('source.next == source', 'source.prev == source', All(Any(*how), 'source.next := source', 'source.prev := source')))], ways='all', only=[])
    if file == V:
        clear = [All('$g.h.gc.list.next := &$g.h.gc.list', '$g.h.gc.list.prev := &$g.h.gc.list'), 'call Clear(&$g.h.gc.list)']
        return [one('MoveTo', front, back), all_('MoveAllTo', *some),
                Fn(V, 'Clear', ['list'], [Case('a list', [], 'list.next := list', 'list.prev := list')], ways='all', only=[]),
                Fn(V, 'Get', ['list'], [Case('an element', [], Any(
                    All('return 0', Any('list.next == list', 'list.prev == list')),
                    All('return $g', '$g.h.gc.list.prev.next := $g.h.gc.list.next', '$g.h.gc.list.next.prev := $g.h.gc.list.prev', Any(*clear))))],
                   ways='all', only=['Clear'], domain={'$g': r'(list\.(?:next|prev))'})]
    return [one('MoveToFront', front), one('MoveToBack', back), all_('MoveAllToFront', some[0])]


def types():
    """The collector of types: the steps it takes, and what it is told."""
    import core, rules
    core.load_all([T])
    c = rules.Checker({T: core.tu(T)})
    ids = {}
    for w in c.ways(core.tu(T), 'FbleNewTypeHeap', [], only=['NewGen']):
        for f in w.facts:
            m = re.match(r'.*\.(mark|gc|save|new) := NewGen\((-?\d+)\)$', f)
            if m:
                ids[m.group(1)] = m.group(2)
    if len(set(ids.values())) != 4:
        raise terms.Unsupported('the generations of a type heap cannot be told apart')
    MARK, GC, SAVE, NEW = [ids[k] for k in ('mark', 'gc', 'save', 'new')]
    S, D, O = 'src[-1]', 'dst[-1]', 'type[-1]'
    MOVE = ['MoveToFront', 'MoveToBack', 'MoveAllToFront']
    put = lambda ring, x: Any('call MoveToBack(&%s, %s)' % (ring, x), 'call MoveToFront(&%s, %s)' % (ring, x))
    put_all = lambda ring, x: Any('call MoveAllToFront(&%s, &%s)' % (ring, x), 'call MoveAllToBack(&%s, &%s)' % (ring, x))
    to = lambda gen: Any('!' + gen, All(D + '.gen := ' + gen, Any(All(D + '.refcount', put(gen + '.roots', D)), All('!%s.refcount' % D, put(gen + '.non_roots', D)))))
    isnt = lambda x, i: Any('%s.gen.id != %s' % (x, i), *['%s.gen.id == %s' % (x, j) for j in ids.values() if j != i] + ['th.old.id >= %s.gen.id' % x])
    both = lambda a, op, b: Any('%s %s %s' % (a, op, b), '%s %s %s' % (b, {'>=': '<=', '>': '<'}[op], a))

    def cmp(a, op, b):
        # a comparison, or one with what an id is known to be
        alts = [both(a, op, b)]
        for x, f in ((a, lambda i: both(i, op, b)), (b, lambda i: both(a, op, i))):
            if x.endswith('.gen.id'):
                alts += [All('%s == %s' % (x, i), f(i)) for i in ids.values()]
        return Any(*alts)
    none = lambda g, r: 'th.%s.%s.next == &th.%s.%s' % (g, r, g, r)
    some = lambda g, r: 'th.%s.%s.next != &th.%s.%s' % (g, r, g, r)
    first = lambda g, r: 'th.%s.%s.next' % (g, r)

    def step(g, r, gen, ring, where, sees):
        """The first of a ring has its references followed and moves on."""
        x = first(g, r)
        what = ['return 0', 'call FbleTypeRefs(&%s.data[0])' % x, '%s.gen := %s' % (x, gen), where(ring, x)]
        if sees:
            what.append('FbleTypeRefs sees %s.gen = th.mark' % x)
        return All(*what)

    back = lambda ring, x: 'call MoveToBack(&%s, %s)' % (ring, x)
    mark = [none('mark', 'non_roots'), none('mark', 'roots')]
    empty = lambda *gs: [none(g, r) for g, r in gs]
    every = [('mark', 'non_roots'), ('mark', 'roots'), ('gc', 'roots'), ('save', 'roots'), ('save', 'non_roots')]
    new_old = lambda what: Any(All(none('old', 'roots'), none('old', 'non_roots'), what('th.old')), All('th.old := NewGen(th.old.id+1)', 'NewGen(th.old.id+1).tail := th.old', what('NewGen(th.old.id+1)')))
    steps = [
        All(some('mark', 'non_roots'), step('mark', 'non_roots', 'th.old', 'th.old.non_roots', put, False)),
        All(some('mark', 'roots'), step('mark', 'roots', 'th.old', 'th.old.roots', back, False)),
        All(some('gc', 'roots'), *mark + [new_old(lambda o: step('gc', 'roots', o, o + '.roots', put, True))]),
        All(some('save', 'roots'), *mark + [new_old(lambda o: step('save', 'roots', o, o + '.roots', put, True))]),
        All(some('save', 'non_roots'), *mark + [step('save', 'non_roots', 'th.new', 'th.new.non_roots', put, False), 'no FbleTypeRefs sees ~'])]
    gone = All('return 1', *empty(*every) + [
        put_all('th.free', 'th.gc.non_roots'), 'somewhere call FbleFree(~', 'th.gc := th.new', 'th.new.id := ' + GC, 'th.new.tail := ~', 'th.next.tail := 0',
        Any('th.old := th.next.tail', 'th.old := NewGen(0)'), 'th.new := NewGen(%s)' % NEW, 'th.next := NewGen(%s)' % NEW,
        'somewhere $m.id := ' + GC, *[Any(*['somewhere call MoveAllTo%s(&th.new.%s, &$m.%s)' % (w, r, r) for w in ('Front', 'Back')]) for r in ('roots', 'non_roots')]])
    return [
        Fn(T, 'FbleNewTypeHeap', [], [Case('a new heap', [], 'return $h', '$h.new := $n', '$h.next := $n', '$h.free.next := &$h.free', '$h.free.prev := &$h.free', '$h.old := NewGen(0)')],
           ways='all', only=['NewGen'], domain={'$h': r'(\w+\([^()]*\))\.\w+ := NewGen', '$n': r'NewGen\([^()]*\)'}),
        Fn(T, 'NewGen', ['id'], [Case('a generation', [], 'return $g', '$g.id := id', '$g.tail := 0', *['$g.%s.%s := &$g.%s' % (r, d, r) for r in ('roots', 'non_roots') for d in ('next', 'prev')])],
           ways='all', only=[], domain={'$g': r'(\w+\([^()]*\))\.id := '}),
        Fn(T, 'FbleTypeAddRef', ['heap', 'src', 'dst'], [
            Case('a reference from an old type to a newer one', [], Any(cmp(S + '.gen.id', '>', 'th.old.id'), cmp(S + '.gen.id', '>=', D + '.gen.id'), cmp(S + '.gen.id', '>=', 'th.next.id'), 'th.next := %s.gen' % S)),
            Case('a reference from a marked type to a new one', [], Any(isnt(S, MARK), isnt(D, NEW), cmp(S + '.gen.id', '>=', 'th.next.id'), 'th.next := th.old', 'th.next := %s.gen' % S)),
            Case('a reference from a marked type to one being collected', [], Any(isnt(S, MARK), isnt(D, GC), to('th.mark'))),
            Case('a reference from another type to one being collected', [], Any('%s.gen.id == %s' % (S, MARK), '%s.gen.id == %s' % (S, GC), isnt(D, GC), to('th.save'))),
            Case('a reference from a marked type to a saved one', [], Any(isnt(S, MARK), isnt(D, SAVE), to('th.mark')))], ways='all', only=MOVE),
        Fn(T, 'FbleRetainType', ['heap', 'type'], [
            Case('a type', [], Any('return type', All('!type', 'return 0')), Any('!type', All(O + '.refcount := %s.refcount+1' % O, Any(
                O + '.refcount', All('!%s.refcount' % O, Any(All('%s.gen.id == %s' % (O, GC), O + '.gen := th.gc', put('th.gc.roots', O)), All('%s.gen.id != %s' % (O, GC), put(O + '.gen.roots', O))))))))],
           ways='all', only=MOVE),
        Fn(T, 'FbleReleaseType', ['heap', 'type'], [
            Case('a type', [], Any('!type', All(O + '.refcount := %s.refcount-1' % O, Any(
                '%s.refcount != 1' % O, All(
                    Any(*[All(k, put(g + '.non_roots', O), Any(both(g + '.id', '>=', 'th.next.id'), both(g + '.id', '>', 'th.old.id'), '&%s.list != %s.roots.next' % (O, g), 'th.next := ' + g))
                          for k, g in (('%s.gen.id == %s' % (O, GC), 'th.gc'), ('%s.gen.id != %s' % (O, GC), O + '.gen'))]),
                    Any('%s.gen.id != %s' % (O, GC), O + '.gen := th.gc'))))))],
           ways='all', only=MOVE),
        Fn(T, 'FbleAllocType', ['heap', 'size'], [
            Case('a type', [], 'return &$o.data[0]', '$o.gen := th.new', '$o.refcount := 1', Any(
                All('$o.list.next := th.new.roots.next', '$o.list.prev := &th.new.roots', 'th.new.roots.next.prev := &$o.list', 'th.new.roots.next := &$o.list'),
                All('$o.list.prev := th.new.roots.prev', '$o.list.next := &th.new.roots', 'th.new.roots.prev.next := &$o.list', 'th.new.roots.prev := &$o.list')))],
           ways='all', only=['IncrGc'], domain={'$o': r'(\w+\([^()]*\))\.gen := '}),
        Fn(T, 'IncrGc', ['heap'], [Case('a step', [], Any(gone, *steps),
                                        Every(r'call FbleTypeOnFree\(&(.*)\.data\[0\]\)', 'call FbleFree($1)'), Every(r'call FbleTypeOnFree\(&(?P<f>.*)\.data\[0\]\)', f=r'th\.free\.next'))],
           domain={'$m': r'(?!th\.new\.)(\S+)\.id := '}, ways='all', only=MOVE + ['NewGen', 'FbleTypeRefs', 'FbleTypeOnFree'], watch={'FbleTypeRefs': 'gen'}),
    ]


def accessors():
    """What the accessors of values do with references and with values that are not there."""
    node = 'node[value,value]'
    o, v = 'StrictValue(object)', 'StrictValue(value)'
    packed, loose = '(%s & 1)' % o, '!(%s & 1)' % o
    word = r"(?<![\w.])(\?\w+\'?)(?![\w.(])"
    fn = lambda name, args, *cases, **kw: Fn(V, name, args, list(cases), ways='all', only=['StrictValue'] if name != 'StrictValue' else ['StrictValue'], **kw)
    absent = lambda r: All('!' + o, 'return ' + r)
    return [
        fn('StrictValue', ['value'], Case('a value', [], Any(
            All('!value', Any('return value', 'return 0')), All('(value & 1)', 'return value'), All('value.tag != REF_VALUE', 'return value'), 'return StrictValue(value.value)',
            Stops('!' + node, '(%s & 1)' % node, '%s.tag != 3' % node)))),
        fn('FbleStructValueField', ['object', 'field'], Case('a struct', [], Any(absent('0'), All(packed, o), All(loose, o, 'return %s.fields[field]' % o)))),
        fn('FbleUnionValueTag', ['object'], Case('a union', [], Any(absent('-1'), All(packed, o), All(loose, o, 'return %s.tag' % o)))),
        fn('FbleUnionValueArg', ['object'], Case('a union', [], Any(absent('0'), All(packed, o), All(loose, o, 'return %s.arg' % o)))),
        fn('FbleUnionValueField', ['object', 'field'], Case('a union', [], Any(
            absent('0'), All(packed, o, Any(All('return 2', '$t != field'), All('$t == field', 'no return 2'))),
            All(loose, o, Any(All('return 2', '%s.tag != field' % o), All('%s.tag == field' % o, 'return %s.arg' % o))))), domain={'$t': word}),
        fn('FbleFuncValueFunction', ['value'], Case('a function', [], Any(All('!' + v, 'return 0'), All(v, 'return &%s.function' % v)))),
        fn('FbleNativeValueData', ['value'], Case('a native value', [], 'return %s.data' % v)),
    ]


K = 'lib/compile.c'


def lowering():
    """What is compiled for each construct."""
    OPAQUE = ['CompileExpr', 'AppendInstr', 'NewLocal', 'GetVar', 'EnterBlock', 'ExitBlock', 'CompileExit', 'ReleaseLocal', 'PushVar', 'PopVar', 'SetVar',
              'AppendDebugInfo', 'PushBodyBlock', 'InitScope', 'FreeScope', 'RewriteVars', 'RewriteVar']
    ins = lambda tag: 'FbleRawAllocInstr(~, %d)' % tag
    one = lambda tag: r'AppendInstr\(scope, FbleRawAllocInstr\(\d+, %d\)' % tag
    part = lambda x: 'CompileExpr(blocks, 0, 0, %s)' % x
    DEST = 'NewLocal().var.index'

    def emits(tag, n=1):
        return ['call AppendInstr(%s)' % ins(tag), Once(one(tag))]

    def result(tag):
        """The one new local is where the instruction puts what is returned."""
        return ['%s.dest := %s' % (ins(tag), DEST), 'return NewLocal()', 'no call ReleaseLocal(NewLocal()~', 'call CompileExit(exit, NewLocal())', Once(r'CompileExit\('), Order(one(tag), r'CompileExit\('), *emits(tag)]

    def args(tag, field, n, x, size=16, what='%s.var'):
        """x.var for each of 0..n-1, in order, in a vector of the instruction."""
        v = '%s.%s' % (ins(tag), field)
        return ['%s.size := %s' % (v, n), Any('%s.xs := [%s]' % (v, what % x.replace('[i]', '[*]')), Each(n, 'FbleAllocRaw(%d)[i] := %s' % (size, what % x)), Each(n, '%s.xs[i] := %s' % (v, what % x)))]

    def keep(tag=None):
        """Nothing is let go while something else still has to be computed."""
        out = [Order(r'CompileExpr\(', r'ReleaseLocal\(')]
        if tag is not None:
            out += [Order(r'CompileExpr\(', one(tag)), Order(one(tag), r'ReleaseLocal\(')]
        return out

    V_ = 'v.fields.size'
    F_ = part('v.fields.xs[i]')
    SEL = ins(4)
    take = lambda s: '{.size=?%s.size, .xs=?%s.xs}' % (s, s)
    enter = lambda b, rep: 'call EnterBlock(blocks, %s.name, %s.loc, %s)' % (b, b, rep)
    bi, bt = 'v.targets.xs[i].target', 'v.default_'
    cx = lambda e, t: 'CompileExpr(blocks, 1, %s, %s.tc)' % (e, t)
    select = ['%s.condition := %s.var' % (SEL, part('v.condition')), SEL + '.loc := v.loc', SEL + '.num_tags := v.num_tags', *emits(4), Once(r'CompileExpr\(blocks, 0, 0, scope, v\.condition'),
              Order(r'CompileExpr\(blocks, 0', one(4)), Order(one(4), r'EnterBlock\('), Order(r'CompileExpr\(blocks, 0, 0, scope, v\.condition\)', r'EnterBlock\('),
              Order(r'CompileExpr\(blocks, 1, .*scope, v\.targets', r'EnterBlock\(blocks, v\.default_'),
              SEL + '.targets.size := v.targets.size', SEL + '.default_ := scope.code.instrs.size', 'CompileExpr sees %s.default_ = scope.code.instrs.size' % SEL,
              'CompileExpr sees scope.active_profile_ops = &scope.pending_profile_ops']
    tgt = [Any(*[All(t + '.tag := v.targets.xs[i].tag', t + '.target := scope.code.instrs.size', 'CompileExpr sees %s.target = scope.code.instrs.size' % t)
                 for t in ('FbleAllocRaw(16)[i]', SEL + '.targets.xs[i]')]), 'never ~ sees %s.default_ = ~' % SEL,
           'CompileExpr sees scope.active_profile_ops = &scope.pending_profile_ops', 'never call NewLocal()']
    copy = lambda t: [ins(9) + '.source := %s.var' % cx(0, t), ins(9) + '.dest := ' + DEST, 'call AppendInstr(%s)' % ins(9)]
    B = '?body'
    def apply_(tag):
        """The calls f(a)(b).. are one call of f with the arguments in the order given."""
        return [All('init($t) = v', 'init($c) = 0', Ends('$t.tag != 9'), Each('~', 'next($t) = $t.func', 'next($c) = $c+1'),
                    ins(tag) + '.func := %s.var' % part("$t'"),
                    Any(All("init($i) = $c'", Each('~', 'next($t) = $t.func', 'next($i) = $i-1', '~[$i-1] := ' + part('$t.arg'))), All('init($u) = v', Each("down $c'", 'next($u) = $u.func', '~[i] := ' + part('$u.arg')))),
                    Any(All(*args(tag, 'args', "$c'", '~[i]')), All(*args(tag, 'args', "$c'", part('$u.arg'))))),
                ins(tag) + '.loc := v.loc', *emits(tag), *keep(tag)]

    case = lambda name, *need: Case(name, ['v.tag == ' + name], *need)
    return [
        Fn(K, 'CompileExpr', ['blocks', 'stmt', 'exit', 'scope', 'v'], [
            case('FBLE_TYPE_VALUE_TC', *result(13)),
            case('FBLE_VAR_TC', 'return GetVar(v.var)', 'GetVar(v.var).refcount := GetVar(v.var).refcount+1', 'call CompileExit(exit, GetVar(v.var))', Once(r'CompileExit\('), 'no call AppendInstr(~'),
            case('FBLE_LET_TC', 'return CompileExpr(blocks, 1, exit, v.body)', Once(r'CompileExpr\(blocks, 1, exit, scope, v\.body'),
                 Each('up v.bindings.size', Any(All('v.recursive', ins(10) + '.dest := ' + DEST, 'call AppendInstr(%s)' % ins(10), 'call PushVar(v.bindings.xs[i].name, NewLocal())'),
                                                All('!v.recursive', 'call PushVar(v.bindings.xs[i].name, 0)', 'no call AppendInstr(~'))),
                 Each('v.bindings.size', 'call %s' % part('v.bindings.xs[i].tc'), 'call EnterBlock(blocks, v.bindings.xs[i].name, v.bindings.xs[i].loc, 0)', 'call ExitBlock(blocks, 0)'),
                 Each('v.bindings.size', 'call SetVar(i+scope.vars.size, v.bindings.xs[i].name, %s)' % part('v.bindings.xs[i].tc'),
                      Any(All('v.recursive', ins(11) + '.loc := v.bindings.xs[i].name.loc', ins(11) + '.ref := ' + DEST, ins(11) + '.value := %s.var' % part('v.bindings.xs[i].tc'), 'call AppendInstr(%s)' % ins(11)),
                          All('!v.recursive', 'no call AppendInstr(~'))),
                 Each('v.bindings.size', 'call PopVar(exit)'),
                 Order('PushVar', 'CompileExpr'), Order(r'CompileExpr\(blocks, 0', 'SetVar'), Order(r'CompileExpr\(blocks, 0', one(11)), Order('SetVar', r'CompileExpr\(blocks, 1'), Order(one(11), r'CompileExpr\(blocks, 1'), Order(one(10), r'CompileExpr\('),
                 Order(r'CompileExpr\(', 'PopVar'), 'no call ReleaseLocal(~'),
            case('FBLE_STRUCT_VALUE_TC', *result(0), *args(0, 'args', V_, F_), *keep(0)),
            case('FBLE_STRUCT_COPY_TC', *result(0), *args(0, 'args', V_, 'alt{%s / NewLocal()}' % F_), *keep(0),
                 Each(V_, Any(All('v.fields.xs[i]', 'call ' + F_, '~[i] := ' + F_, 'no call AppendInstr(~'),
                              All('!v.fields.xs[i]', '~[i] := NewLocal()', ins(2) + '.dest := ' + DEST, ins(2) + '.loc := v.loc', ins(2) + '.obj := %s.var' % part('v.source'), ins(2) + '.tag := i', *emits(2)))),
                 Order(r'CompileExpr\(blocks, 0, 0, scope, v\.source', one(2)), Order(one(2), one(0)), Order(one(2), r'ReleaseLocal\(')),
            case('FBLE_UNION_VALUE_TC', *result(1), ins(1) + '.tag := v.tag', ins(1) + '.arg := %s.var' % part('v.arg'), *keep(1)),
            Case('FBLE_UNION_SELECT_TC that returns', ['v.tag == FBLE_UNION_SELECT_TC', 'exit'], 'return 0', *select, 'no call NewLocal()', 'call ' + cx('exit', bt), Once(r'CompileExpr\(blocks, 1, exit, scope, v\.default_'),
                 enter(bt, 'exit'), 'call ExitBlock(blocks, exit)', Each('up v.targets.size', 'call ' + cx('exit', bi), enter(bi, 'exit'), 'call ExitBlock(blocks, exit)', *tgt)),
            Case('FBLE_UNION_SELECT_TC', ['v.tag == FBLE_UNION_SELECT_TC', '!exit'], 'return NewLocal()', 'no call ReleaseLocal(NewLocal()~', Late(ins(5) + '.target := scope.code.instrs.size', 'AppendInstr'), Once(r'NewLocal\('), *select, *copy(bt), 'call ' + cx(0, bt), Once(r'CompileExpr\(blocks, 1, 0, scope, v\.default_'), enter(bt, 0), 'call ExitBlock(blocks, 0)',
                 'call AppendInstr(%s)' % ins(16), 'no AppendInstr sees %s.target = scope.code.instrs.size' % ins(5),
                 Each('up v.targets.size', 'call ' + cx(0, bi), enter(bi, 0), 'call ExitBlock(blocks, 0)', *copy(bi), *tgt, 'call AppendInstr(%s)' % ins(5)),
                 Each('v.targets.size', ins(5) + '.target := scope.code.instrs.size')),
            Case('FBLE_DATA_ACCESS_TC of a struct', ['v.tag == FBLE_DATA_ACCESS_TC', 'v.datatype == FBLE_STRUCT_DATATYPE'], *result(2), ins(2) + '.obj := %s.var' % part('v.obj'), ins(2) + '.tag := v.tag', ins(2) + '.loc := v.loc', *keep(2)),
            Case('FBLE_DATA_ACCESS_TC of a union', ['v.tag == FBLE_DATA_ACCESS_TC', 'v.datatype == FBLE_UNION_DATATYPE'], *result(3), ins(3) + '.obj := %s.var' % part('v.obj'), ins(3) + '.tag := v.tag', ins(3) + '.loc := v.loc', *keep(3)),
            case('FBLE_FUNC_VALUE_TC', *result(6), *args(6, 'scope', 'v.scope.size', 'GetVar(v.scope.xs[i])'),
                 'init(?body) = v.body', 'init(?arg_offset) = 0', 'init(?statics.size) = v.scope.size', 'init(?args.size) = v.args.size', Ends('?body.tag != 8'),
                 Each('v.scope.size', '~[i].index := i', '~[i].tag := 0'), Each('v.args.size', '~[i] := v.args.xs[i]'),
                 Each('~', 'next(?body) = ?body.body', 'next(?body_loc) = ?body.body_loc', 'next(?arg_offset) = ?args.size', 'next(?statics.size) = ?body.scope.size', 'next(?statics.xs) = [RewriteVar(%s, ?arg_offset, ?body.scope.xs[*])]' % take('statics'),
                      Each('up ?body.scope.size', '~[j] := RewriteVar(%s, ?arg_offset, ?body.scope.xs[j])' % take('statics')),
                      Each('up ?body.args.size', '~[?args.size] := ?body.args.xs[j]', 'next(?args.size) = ?args.size+1')),
                 ins(6) + ".profile_block_offset := PushBodyBlock(blocks, ?body_loc')-scope.code.profile_block_id",
                 "call InitScope(~, &%s.code, {.size=?args.size', .xs=~}, v.statics, PushBodyBlock(blocks, ?body_loc'))" % ins(6),
                 "call CompileExpr(blocks, 1, 1, {=out:InitScope(~)}, RewriteVars({.size=?statics.size', .xs=?statics.xs'}, ?arg_offset', ?body'))", Once('CompileExpr'), Once('InitScope'), Once('PushBodyBlock'), Once('ExitBlock'),
                 Order('PushBodyBlock', 'CompileExpr'), Order('CompileExpr', 'ExitBlock'), 'call ExitBlock(blocks, ~, 1)'),
            Case('FBLE_FUNC_APPLY_TC that returns', ['v.tag == FBLE_FUNC_APPLY_TC', 'exit'], 'return 0', *apply_(8)),
            Case('FBLE_FUNC_APPLY_TC', ['v.tag == FBLE_FUNC_APPLY_TC', '!exit'], 'return NewLocal()', 'no call ReleaseLocal(NewLocal()~', *apply_(7), ins(7) + '.dest := ' + DEST, Once('NewLocal')),
            case('FBLE_LIST_TC', *result(14), *args(14, 'args', V_, F_), *keep(14)),
            case('FBLE_LITERAL_TC', *result(15), *args(15, 'letters', 'v.letters.size', 'v.letters.xs[i]', 8, '%s')),
            ], ways='all', only=OPAQUE, watch={'CompileExpr': ('target', 'default_', 'active_profile_ops'), 'AppendInstr': ('target',)}),
    ] + scopes(OPAQUE)


def scopes(opaque):
    """The places values are kept in while code is made, and the order it is put in."""
    add = lambda file, v, x: ['%s.xs[%s.size] := %s' % (v, v, x), '%s.size := %s.size+1' % (v, v), 'call FbleExtendVectorRaw(~, &%s.size, &%s.xs)' % (v, v)]
    L_ = 'FbleAllocRaw(~)'
    only = opaque + ['AppendProfileOp', 'PushBlock', 'FbleNewCode', 'FreeLocal', 'Compile', 'CompileModule']
    fn = lambda name, params, *cases, **kw: Fn(K, name, params, list(cases), ways='all', only=only, **kw)
    info = lambda v: ['call AppendDebugInfo(%s)' % L_, L_ + '.tag := FBLE_VAR_DEBUG_INFO', L_ + '.var := ' + v]
    CODE = 'FbleNewCode(args.size, statics.size, 0, block)'
    BLOCK = 'PushBlock({.profile.size=0, .profile.xs=~, .stack.size=0, .stack.xs=~}, name, name.loc)'

    def kept(n, v, tag):
        return All('scope.%s.size := %s' % (v, n), Each(n, L_ + '.var.index := i', L_ + '.var.tag := %d' % tag, L_ + '.refcount := 1', Any('%s[i] := %s' % (L_, L_), 'scope.%s.xs[i] := %s' % (v, L_))))

    slot = lambda i: [L_ + '.var.tag := 2', L_ + '.var.index := ' + i, L_ + '.refcount := 1', 'scope.locals.xs[%s] := %s' % (i, L_), 'return ' + L_]
    return [
        fn('NewLocal', ['scope'],
           Case('a place', [], Any(All(*slot('scope.locals.size'), 'scope.code.num_locals := scope.locals.size+1', *add(K, 'scope.locals', L_)),
                                   All(*slot('$e'), '!scope.locals.xs[$e]', '$e < scope.locals.size', 'no call FbleExtendVectorRaw(~', 'no scope.code.num_locals := ~'))),
           domain={'$e': r'scope\.locals\.xs\[(.*?)\] := '}),
        fn('ReleaseLocal', ['scope', 'local', 'exit'],
           Case('a local', ['local'], 'local.refcount := local.refcount-1',
                Any(All('local.refcount == 1', 'scope.locals.xs[local.var.index] := 0', 'call FreeLocal(local)'), All('local.refcount != 1', 'no call FreeLocal(~', 'no scope.locals.xs[~ := ~'))),
           Case('no local', ['!local'], 'no call FreeLocal(~', 'no scope.locals.xs[~ := ~')),
        fn('PushVar', ['scope', 'name', 'local'],
           Case('a variable', ['local'], *add(K, 'scope.vars', 'local'), *info('local.var')),
           Case('a variable that is not set yet', ['!local'], *add(K, 'scope.vars', '0'))),
        fn('PopVar', ['scope', 'exit'],
           Case('a variable', [], 'call ReleaseLocal(scope.vars.xs[scope.vars.size-1], exit)', 'scope.vars.size := scope.vars.size-1')),
        fn('GetVar', ['scope', 'var'],
           Case('FBLE_STATIC_VAR', ['var.tag == FBLE_STATIC_VAR'], 'return scope.statics.xs[var.index]'),
           Case('FBLE_ARG_VAR', ['var.tag == FBLE_ARG_VAR'], 'return scope.args.xs[var.index]'),
           Case('FBLE_LOCAL_VAR', ['var.tag == FBLE_LOCAL_VAR'], 'return scope.vars.xs[var.index]')),
        fn('SetVar', ['scope', 'index', 'name', 'local'],
           Case('a variable', [], 'scope.vars.xs[index] := local', 'call ReleaseLocal(scope.vars.xs[index], 0)', *info('local.var'))),
        fn('RewriteVar', ['statics', 'arg_offset', 'var'],
           Case('FBLE_STATIC_VAR', ['var.tag == FBLE_STATIC_VAR'], 'return statics.xs[var.index]'),
           Case('FBLE_ARG_VAR', ['var.tag == FBLE_ARG_VAR'], 'return {.index=var.index+arg_offset, .tag=1}'),
           Case('FBLE_LOCAL_VAR', ['var.tag == FBLE_LOCAL_VAR'], 'return var')),
        fn('CompileExit', ['exit', 'scope', 'result'],
           Case('a return', ['exit', 'result'], 'FbleRawAllocInstr(~, 12).result := result.var', 'call AppendInstr(FbleRawAllocInstr(~, 12))', Once('AppendInstr')),
           Case('no return', ['!exit'], 'no call AppendInstr(~'),
           Case('no result', ['!result'], 'no call AppendInstr(~')),
        fn('InitScope', ['scope', 'code', 'args', 'statics', 'block', 'parent'],
           Case('a scope', [], 'scope.code := ' + CODE, 'code := ' + CODE, 'scope.vars.size := 0', 'scope.locals.size := 0', 'scope.pending_debug_info := 0', 'scope.pending_profile_ops := 0',
                'scope.active_profile_ops := &scope.pending_profile_ops', kept('statics.size', 'statics', 0), kept('args.size', 'args', 1))),
        fn('AppendInstr', ['scope', 'instr'],
           Case('an instruction', [], *add(K, 'scope.code.instrs', 'instr'), 'call AppendProfileOp(3, 1)', Once('AppendProfileOp'), 'instr.debug_info := scope.pending_debug_info', 'scope.pending_debug_info := 0',
                Any(All('scope.pending_profile_ops', 'instr.profile_ops := scope.pending_profile_ops', 'scope.pending_profile_ops := 0', 'scope.active_profile_ops := &instr.profile_ops'),
                    All('!scope.pending_profile_ops', 'no instr.profile_ops := ~', 'no scope.active_profile_ops := ~')))),
        fn('AppendProfileOp', ['scope', 'tag', 'arg'],
           Case('the first', ['!scope.active_profile_ops'], 'scope.active_profile_ops := ' + L_, L_ + '.tag := tag', L_ + '.arg := arg', L_ + '.next := 0'),
           Case('a further one', ['scope.active_profile_ops'], All('init($c) = scope.active_profile_ops', Each('~', 'next($c) = $c.next'), Ends('!$c.next'),
                Any(All("$c'.next := " + L_, L_ + '.tag := tag', L_ + '.arg := arg', L_ + '.next := 0'), All('tag == FBLE_PROFILE_SAMPLE_OP', "$c'.tag == 3", "$c'.arg := $c'.arg+arg"))))),
        fn('EnterBlock', ['blocks', 'name', 'loc', 'scope', 'replace'],
           Case('replacing', ['replace'], 'call AppendProfileOp(1, PushBlock(blocks, name, loc)-scope.code.profile_block_id)'),
           Case('entering', ['!replace'], 'call AppendProfileOp(0, PushBlock(blocks, name, loc)-scope.code.profile_block_id)')),
        fn('ExitBlock', ['blocks', 'scope', 'exit'],
           Case('left', ['exit'], 'blocks.stack.size := blocks.stack.size-1', 'no call AppendProfileOp(~'),
           Case('leaving', ['!exit'], 'blocks.stack.size := blocks.stack.size-1', 'call AppendProfileOp(2, ~)')),
        fn('Compile', ['args', 'tc', 'name', 'profile_blocks'],
           Case('code', [], 'return out:InitScope(args, {.size=0, .xs=0}, %s, 0)' % BLOCK, 'call CompileExpr(~, 1, 1, {=out:InitScope(args, ~, 0)}, tc)', Once('CompileExpr'), Once('InitScope'), Once('PushBlock'), 'profile_blocks := out:ExitBlock(1).profile')),
        fn('CompileModule', ['module', 'tc'],
           Case('a module', [], 'return ' + L_, L_ + '.path := module.path', L_ + '.code := Compile({.size=module.deps.size, .xs=[FbleModulePathName(module.deps.xs[*])]}, tc, FbleModulePathName(module.path), &~.profile_blocks)',
                L_ + '.deps.size := module.deps.size', Any(L_ + '.deps.xs := [module.deps.xs[*]]', Each('module.deps.size', Any(L_ + '[i] := module.deps.xs[i]', L_ + '.deps.xs[i] := module.deps.xs[i]'))))),
        fn('FbleCompileModule', ['program'],
           Case('a module', ['FbleTypeCheckModule(program)'], 'return CompileModule(program.modules.xs[program.modules.size-1], FbleTypeCheckModule(program))'),
           Case('a rejected module', ['!FbleTypeCheckModule(program)'], 'return 0')),
        fn('FbleCompileProgram', ['program'],
           Case('a program', ['FbleTypeCheckProgram(program)'], 'return ' + L_, L_ + '.modules.size := program.modules.size',
                Any(L_ + '.modules.xs := [CompileModule(program.modules.xs[*], FbleTypeCheckProgram(program)[*])]',
                    Each('program.modules.size', Any(*[x + '[i] := CompileModule(program.modules.xs[i], FbleTypeCheckProgram(program)[i])' for x in (L_, L_ + '.modules.xs')])))),
           Case('a rejected program', ['!FbleTypeCheckProgram(program)'], 'return 0')),
    ]


def absent(n, what, flag):
    """A search of all there is has not found what it looks for; by leaving off or by a flag."""
    return Any(Each(n, '!' + what), All(Each(n, '!' + flag, 'next(%s) = %s' % (flag, what)), "!%s'" % flag))


def present(n, found, what, flag, *more):
    return Any(All(found, *more), All(Part(n, '!' + flag, 'next(%s) = %s' % (flag, what)), Any(flag, flag + "'")))


def linking():
    """Modules are loaded once, after what they depend on, and given exactly that."""
    P, D = '$p', '$s.module.deps.xs[$s.deps_loaded]'
    more = Any('$s.deps_loaded != $s.module.deps.size', '$s.deps_loaded < $s.module.deps.size')
    done = Any('$s.deps_loaded == $s.module.deps.size', '$s.deps_loaded >= $s.module.deps.size')
    kept = ['no call FbleExtendVectorRaw(40~']
    loaded = lambda i: 'FbleModulePathsEqual(%s, ~[%s].path)' % (D, i)
    nodes = 'FbleModulePathsEqual(%s, node[$s,tail].module.path)' % D
    size = P + '.modules.size'
    file = 'Find(search_path, %s, build_deps)' % D
    parse = 'FbleParse(%s, &$n.module.deps)' % file
    start = [more, absent(size, loaded('j'), '$f'), absent('$s', nodes, '$g'), 'next($s) = $n', '$n.module.path := ' + D, '$n.tail := $s', *kept]
    over = Any('$n.deps_loaded := $n.module.deps.size', All('$n.deps_loaded := 0', '$n.module.deps.size := 0'))
    rounds = Each('~', Any(
        All(done, '~[%s] := $s.module' % size, '%s := %s+1' % (size, size), 'next($s) = $s.tail', 'next($r) = $r', 'no call FbleParse(~', 'no $s.deps_loaded := ~'),
        All(more, present(size, loaded('$e'), loaded('j'), '$f', '$e < ' + size), '$s.deps_loaded := $s.deps_loaded+1', 'next($s) = $s', 'next($r) = $r', 'no call FbleParse(~', *kept),
        All(more, present('$s', nodes, nodes, '$g'), 'next($s) = $s', 'next($r) = 1', '$s.deps_loaded := $s.module.deps.size', 'call FbleReportError(~, %s.loc)' % D,
            'call FblePrintModulePath(stderr, %s)' % D, 'no call FbleParse(~', *kept),
        All(*start, '$n.deps_loaded := 0', '$n.module.value := ' + parse, parse, Any('next($r) = $r', 'next($r) = 0'), 'no $s.deps_loaded := ~'),
        All(*start, 'next($r) = 1', '$n.module.value := 0', over, '!' + file),
        All(*start, 'next($r) = 1', over, '!' + parse)))
    first = 'FbleParse(Find(search_path, module_path, build_deps), &$n.module.deps)'

    def link(mods, path, code, more, new):
        m = mods + '.xs[i]'
        dep = lambda x: '%s.deps.xs[%s]%s' % (m, x, path)
        call = 'FbleRawAllocInstr(~, 7)'
        CODE = 'FbleNewCode(0, %s.size, %s.size, %s)' % (mods, mods, MAIN)
        take = ['FbleModulePathsEqual(%s.xs[$e].path, %s)' % (mods, dep('j')), Any('$e < i', '$e < %s.size' % mods),
                Any(All('FbleAllocRaw(16)[%s.args.size].index := $e' % call, 'FbleAllocRaw(16)[%s.args.size].tag := 2' % call, '%s.args.size := %s.args.size+1' % (call, call)),
                    *[All(x + '.index := $e', x + '.tag := 2') for x in ('FbleAllocRaw(16)[j]', call + '.args.xs[j]')])]
        args = Any(All(Any('?loop~ == %s.deps.size' % m, '%s.args.size == %s.deps.size' % (call, m)), Each('up %s.deps.size' % m, Any('no call FbleExtendVectorRaw(16~', All(*take)))),
                   Each('up %s.deps.size' % m, *take))
        return [
            Each('up %s.size' % mods, call + '.func.tag := 0', call + '.func.index := i', call + '.dest := i', args, *more,
                 Any(*[x + ' := ' + call for x in (CODE + '.instrs.xs[%s.instrs.size]' % CODE, CODE + '.instrs.xs[i]', 'FbleAllocRaw(8)[i]')])),
            Each('up %s.size' % mods, '~[i] := ' + code),
            'FbleRawAllocInstr(~, 12).result.tag := 2', 'FbleRawAllocInstr(~, 12).result.index := %s.size-1' % mods,
            Any(*[CODE + '.instrs.xs[%s] := FbleRawAllocInstr(~, 12)' % x for x in ('?loop~', mods + '.size')]),
            'return FbleNewInterpretedFuncValue(heap, %s, %s, [%s])' % (CODE, MAIN, code.replace('[i]', '[*]')), Once(r'FbleNewCode\('), Once(r'FbleAddBlockToProfile\('), *new]

    MAIN = 'FbleAddBlockToProfile(profile, ~<main>~)'
    CP = 'FbleCompileProgram(FbleLoad(search_path, module_path, 0))'
    LG = 'out:LoadGenerated(program)'
    blocks = lambda m: 'FbleAddBlocksToProfile(profile, %s.xs[i].profile_blocks)' % m
    return [
        Fn(L, 'FbleLoad', ['search_path', 'module_path', 'build_deps'], [
            Case('a program', [], Any(
                All('!module_path', 'return 0'), All('!Find(search_path, module_path, build_deps)', 'return 0'),
                All('init($s) = $n', '$n.module.path := module_path', '$n.module.value := ' + first, '$n.tail := 0', P + '.modules.xs := ~', rounds, Ends('!$s'),
                    Any(All('init($r) = 0', first, '$n.deps_loaded := 0'), All('init($r) = 1', '!' + first, '$n.deps_loaded := $n.module.deps.size')),
                    Any(All("$r'", 'return 0'), All("!$r'", 'return ' + P)))))],
           ways='all', only=['Find'], domain={'$n': r'(.*)\.deps_loaded := ', '$p': r'(.*)\.modules\.size := ', '$e': r'\[(e\{[^{}]*\})\]\.path',
                               '$f': r'next\((\?\w+)\) = FbleModulePathsEqual', '$g': r'next\((\?\w+)\) = FbleModulePathsEqual'}),
        Fn(L, 'Find', ['search_path', 'path', 'build_deps'], [
            Case('found', [], Any(All('return 0', "!$r'"), All("return $r'", "$r'"), All('return $r', '$r'), All('return FindAt($q, path, build_deps)', 'FindAt($q, path, build_deps)'), All('return 0', 'no return FindAt(~')),
                 Any(Part('up search_path.size', All('!$r', 'next($r) = FindAt(&search_path.xs[i].str[0], path, build_deps)')), Part('up search_path.size', '!FindAt(&search_path.xs[i].str[0], path, build_deps)')))],
           ways='all', only=['FindAt'], domain={'$q': r'FindAt\((.*), path, build_deps\)'}),
        Fn(LK, 'LoadGenerated', ['loaded', 'module'], [
            Case('a module', [], Any(
                All(present('loaded.size', 'FbleModulePathsEqual(loaded.xs[$e].path, module.path)', 'FbleModulePathsEqual(loaded.xs[i].path, module.path)', '$f', '$e < loaded.size'), 'no loaded.size := ~', 'no call LoadGenerated(~'),
                All(absent('loaded.size', 'FbleModulePathsEqual(loaded.xs[i].path, module.path)', '$f'), Each('module.deps.size', 'call LoadGenerated(loaded, module.deps.xs[i])'), 'loaded.xs[~] := module', 'loaded.size := ~+1', Order('LoadGenerated', 'FbleExtendVectorRaw'), Once('FbleExtendVectorRaw'))))],
           ways='all', only=['LoadGenerated'], domain={'$e': r'loaded\.xs\[(e\{.*?\})\]\.path', '$f': r'next\((\?\w+)\) = FbleModulePathsEqual'}),
        Fn(LK, 'LinkInterpreted', ['heap', 'profile', 'search_path', 'module_path'], [
            Case('a program', [], Any(All('!FbleLoad(search_path, module_path, 0)', 'return 0'), All('!' + CP, 'return 0'),
                                      All(*link(CP + '.modules', '', 'FbleNewInterpretedFuncValue(heap, %s.modules.xs[i].code, %s, 0)' % (CP, blocks(CP + '.modules')), [], []))))],
           ways='all', only=['FbleLoad', 'FbleCompileProgram'], domain={'$e': r'\.index := (e\{.*?\})'}),
        Fn(LK, 'LinkGenerated', ['heap', 'profile', 'program'], [
            Case('a program', [], *link(LG, '.path', 'FbleNewFuncValue(heap, %s.xs[i].executable, %s, 0)' % (LG, blocks(LG)), ['%s.xs[i].deps.size == %s.xs[i].executable.num_args' % (LG, LG), '!%s.xs[i].executable.num_statics' % LG], []))],
           ways='all', only=['LoadGenerated'], domain={'$e': r'\.index := (e\{.*?\})'}),
        Fn(LK, 'FbleLink', ['heap', 'profile', 'module', 'search_path', 'module_path'], [
            Case('a generated module', ['module'], 'return LinkGenerated(heap, profile, module)'),
            Case('a source module', ['!module'], 'return LinkInterpreted(heap, profile, search_path, module_path)')], ways='all', only=['LinkGenerated', 'LinkInterpreted']),
    ]


def application():
    """A function is run once it has its arguments, whatever they came in."""
    G, X = 'gTailCallData', '.executable'
    S = {'*run': [(G, (), 'left')], 'EnsureTailCallArgsSpace': [(G, ('func_and_args',), 'grown')],
         'CompactFrame': [(G, ('func_and_args', '*'), 'kept')], 'FbleTailCall': [(G, (), 'next')]}

    def mem(dst, src, size, one, count):
        return Any('call memcpy(%s, %s, %s)' % (dst, src, size), Each('up ' + count, one))

    F = 'FbleFuncValueFunction(function)'
    N = F + X + '.num_args'
    R = lambda f, a: 'call[%s%s.run](heap, ~, %s, %s)' % (f, X, f, a)
    run = R(F, 'args')
    left = 'argc-' + N
    none = lambda u: Any('!' + u, u + ' == 0', u + ' <= 0')

    def passed(argc, n, of, both, i, to):
        """What is left over follows what the tail call has."""
        u = '%s-%s' % (argc, n)
        return [Any(All(none(u), 'no call memcpy(grown~'),
                    All(Any('call memcpy(grown[left.argc+1], %s[%s], 8*%s-8*%s)' % (of, n, argc, n), Each('up ' + u, Any(*['grown[%s] := %s[%s+%s]' % (to, x, i, n) for x in (of.replace('&', ''), 'out:memcpy(&%s[0], ~)' % of.replace('&', ''))]))),
                        'call EnsureTailCallArgsSpace(%s-%s)' % (both, n), '%s.argc := %s-%s' % (G, both, n))),
                'no call FblePopFrame(~']

    T0, T1 = 'FbleFuncValueFunction(%s.func_and_args)' % G, 'FbleFuncValueFunction(kept)'
    N0, N1, A = T0 + X + '.num_args', T1 + X + '.num_args', G + '.argc'
    again = R(T1, '~')
    rest = '%s-%s' % (A, N1)
    start = [Any('%s >= %s' % (A, N0), '%s >= %s' % (A, N1)), 'call CompactFrame(heap, ~, %s+1, %s.func_and_args)' % (A, G), *[Any(*['call *%s%s.run(heap, ~, %s, %s)' % (T1, X, T1, a) for a in ('&$a[0]', '[kept[*+1]]')])], Once(r'^\*'),
             mem('&$a[0]', G + '.func_and_args[1]', '8*' + A, '$a[~] := kept[~+1]', A), Order('CompactFrame', 'memcpy')]
    rounds = Part('~', *start, Any(
        All(again + ' == 2', *passed(A, N1, '&$a', A + '+left.argc', 'j', 'j+left.argc+1')),
        All(again + ' != 2', again, rest, 'FbleFuncValueFunction(%s)' % again, 'call FbleTailCall(heap, FbleFuncValueFunction(%s), %s, %s, &$a[%s])' % (again, again, rest, N1))))

    P = 'function' + X
    return [
        Fn(V, 'FbleCall', ['heap', 'profile', 'function', 'argc', 'args'], [
            Case('any number', [], Any(
                All('!' + F, 'return 0', 'no call *~', 'call FbleReportError(~'),
                All(F, 'argc < ' + N, 'return PartialApply(heap, %s, function, argc, args)' % F, 'no call *~'),
                All(F, 'argc >= ' + N, 'call *%s%s.run(heap, ~, %s, args)' % (F, X, F), Once(r'^\*'), Any(
                    All(run + ' == 2', 'return TailCall(heap, ~)', *passed('argc', N, 'args', 'left.argc+argc', 'i', 'i+left.argc+1')),
                    All(run + ' != 2', run, left, 'return FbleCall(heap, ~, FblePopFrame(heap, %s), %s, args[%s])' % (run, left, N)),
                    All(run + ' != 2', Any('!' + run, none(left)), Any('return FblePopFrame(heap, %s)' % run, 'return FblePopFrame(heap, 0)'))))))],
           ways='all', only=['PartialApply', 'EnsureTailCallArgsSpace', 'FbleFuncValueFunction', 'FblePopFrame', 'PushFrame', 'TailCall', 'FbleReportError'], stirs=S, pure=['*run']),
        Fn(V, 'TailCall', ['heap', 'profile'], [
            Case('what was left to do', [], rounds, Any(
                All(A + ' < ' + N0, 'never call *~', 'return FblePopFrame(heap, PartialApply(heap, %s, %s.func_and_args, %s, %s.func_and_args[1]))' % (T0, G, A, G)),
                All(*[x for x in start if not isinstance(x, (Once, Order))], again + ' != 2', Any(
                    All(again, rest, '!FbleFuncValueFunction(%s)' % again, 'return FblePopFrame(heap, FbleCall(heap, ~, %s, %s, &$a[%s]))' % (again, rest, N1)),
                    All(Any('!' + again, none(rest)), Any('return FblePopFrame(heap, %s)' % again, 'return FblePopFrame(heap, 0)'))))))],
           ways='all', only=['PartialApply', 'EnsureTailCallArgsSpace', 'FbleFuncValueFunction', 'FblePopFrame', 'CompactFrame', 'FbleTailCall', 'FbleCall'], stirs=S, pure=['*run'],
           domain={'$a': r'(?:.*, &|)(\w+)\[.*'}),
        Fn(V, 'FbleTailCall', ['heap', 'function', 'func', 'argc', 'args'], [
            Case('what is to be called', [], 'return 2', 'call EnsureTailCallArgsSpace(argc)', mem('grown[1]', 'args', '8*argc', 'grown[i+1] := args[i]', 'argc'),
                 G + '.argc := argc', 'grown := func')],
           ways='all', only=['EnsureTailCallArgsSpace'], stirs=S),
        Fn(V, 'EnsureTailCallArgsSpace', ['argc'], [
            Case('room', [], Any(All(G + '.capacity >= argc+1', 'no call ~'),
                                 All(G + '.capacity < argc+1', G + '.func_and_args := FbleReAllocRaw(%s.func_and_args, 8*argc+8)' % G, G + '.capacity := argc+1')))], ways='all', only=[]),
        Fn(V, 'PartialApply', ['heap', 'function', 'func', 'argc', 'args'], [
            Case('a function of the others', [], Any('return FbleNewFuncValue(heap, {.num_args=%s.num_args-argc, .num_statics=argc+1, .run=fn[$r], ~}, ~, &$s[0])' % P, 'return FbleNewFuncValue(heap, {.num_args=%s.num_args-argc, .num_statics=argc+1, .run=fn[$r], ~}, ~, [~*~])' % P), mem('&$s[1]', 'args', '8*argc', '$s[i+1] := args[i]', 'argc'),
                 '$s[0] := func')],
           ways='all', only=['FbleNewFuncValue'], domain={'$r': r'\.run=fn\[(\w+)\]', '$s': r'(\w+)\[.*\] := '}),
        Fn(V, 'PartialApplyImpl', ['heap', 'profile', 'function', 'args'], [
            Case('all arguments', [], Any('return FbleTailCall(heap, FbleFuncValueFunction(function.statics), function.statics, %s.num_args+%s.num_statics-1, &$n[0])' % (P, P), 'return FbleTailCall(heap, FbleFuncValueFunction(function.statics), function.statics, %s.num_args+%s.num_statics-1, [~*~])' % (P, P)),
                 mem('&$n[0]', 'function.statics[1]', '8*%s.num_statics-8' % P, '$n[i] := function.statics[i+1]', P + '.num_statics-1'),
                 mem('&$n[%s.num_statics-1]' % P, 'args', '8*%s.num_args' % P, '$n[i+%s.num_statics-1] := args[i]' % P, P + '.num_args'))],
           ways='all', only=['FbleTailCall', 'FbleFuncValueFunction'], domain={'$n': r'(?:.*memcpy\(&)?(\w+)\['}),
        Fn(V, 'FbleNewFuncValue', ['heap', 'executable', 'block', 'statics'], [
            Case('a function', [], 'call NewValueRaw(heap, 2, ~)', 'return $v', '$v.function.profile_block_id := block', Any('$v.function.statics := $v.statics', '$v.function.statics := &$v.statics[0]'),
                 Any('$v.function.executable := executable', 'call memcpy($v.function.executable, executable, ~', 'call memcpy(&$v.function.executable, executable, ~', All(*['$v.function.executable.%s := executable.%s' % (f, f) for f in ('num_args', 'num_statics', 'run')])),
                 mem('~$v.statics~', 'statics', '8*executable.num_statics', '$v.statics[i] := statics[i]', 'executable.num_statics'))],
           ways='all', only=['NewValueRaw'], domain={'$v': r'(NewValueRaw\(.*\))\.function\.profile_block_id := '}),
        Fn(V, 'FbleApply', ['heap', 'func', 'argc', 'args', 'profile'], [
            Case('called', [], 'return FbleCall(heap, ~, func, argc, args)', Once('FbleCall'))], ways='all', only=['FbleCall']),
        Fn(V, 'FbleEval', ['heap', 'program', 'profile'], [
            Case('called', [], Any('return FbleCall(heap, ~, program, 0, 0)', 'return Eval(heap, program, 0, 0, profile)', 'return FbleApply(heap, program, 0, 0, profile)'))], ways='all', only=['FbleCall', 'FbleApply']),
        Fn('lib/interpret.c', 'FbleNewInterpretedFuncValue', ['heap', 'code', 'block', 'statics'], [
            Case('code', [], Any('return FbleNewFuncValue(heap, {.num_args=code.executable.num_args, .num_statics=code.executable.num_statics+1, .run=fn[Interpret], ~}, block, &$s[0])', 'return FbleNewFuncValue(heap, {.num_args=code.executable.num_args, .num_statics=code.executable.num_statics+1, .run=fn[Interpret], ~}, block, [~*~])'),
                 mem('&$s[0]', 'statics', '8*code.executable.num_statics', '$s[i] := statics[i]', 'code.executable.num_statics'),
                 '$s[code.executable.num_statics] := FbleNewNativeValue(heap, code, fn[FreeCode])', 'code.refcount := code.refcount+1')],
           ways='all', only=['FbleNewFuncValue', 'FbleNewNativeValue'], domain={'$s': r'(\w+)\[.*\] := '}),
    ]


def selects():
    """A union select goes where the branch for the tag is, and to the default only when there is none."""
    I, TAG = '$c.instrs.xs[$pc]', 'FbleUnionValueTag(~)'
    at = I + '.targets.xs[$m].tag'
    halves = Each('~', Any(All('next($l) = $l', 'next($h) = $m', Any(TAG + ' < ' + at, at + ' >= ' + TAG)), All('next($h) = $h', 'next($l) = $m+1', Any(at + ' < ' + TAG, TAG + ' >= ' + at))),
                  'never %s == %s' % (TAG, at), 'never %s == %s' % (at, TAG))
    binary = All('init($l) = 0', 'init($h) = %s.targets.size' % I, Any(Ends('$l >= $h'), Ends('$l == $h')), halves)
    linear = Each('up %s.targets.size' % I, Any('%s != %s.targets.xs[i].tag' % (TAG, I), '%s != %s.targets.xs[j].tag' % (TAG, I), '%s.targets.xs[i].tag != %s' % (I, TAG), '%s.targets.xs[j].tag != %s' % (I, TAG)))

    T, M = 'interval.targets', '(interval.num_targets / 2)'
    mid = '%s[%s].tag' % (T, M)
    lo, hi = Any('interval.lo == ' + mid, mid + ' == interval.lo'), Any('interval.hi == ' + mid, mid + ' == interval.hi')
    LOW = r'{.default_=interval.default_, .hi=%s-1, .lo=interval.lo, .num_targets=%s, .targets=%s, =zero[]}' % (mid, M, T)
    HIGH = r'{.default_=interval.default_, .hi=interval.hi, .lo=%s+1, .num_targets=interval.num_targets-%s-1, .targets=%s[%s+1], =zero[]}' % (mid, M, T, M)
    b = lambda op, t: 'emit context.fout "~  b%s .Lr.{context.func_id}.{%s}\n~' % (op, t)
    test = [Any('emit context.fout "  cmp x0, {%s}\n  b.eq .Lr.{context.func_id}.{%s[%s].target}\n~' % (mid, T, M)), 'GetSingleTarget(interval) == -1']
    S = 'GetSingleTarget(%s)'
    go = lambda x: 'call EmitSearch(context, %s)' % x
    L = '.Lr.{context.func_id}.{context.pc}.{context.label}'
    q = re.escape
    return [
        Fn('lib/interpret.c', 'Interpret', ['heap', 'profile', 'function', 'args'], [
            Case('an instruction', [], Part('~', Any(All('never next($pc) = $c.instrs.xs[$pc].default_', 'somewhere next($pc) = ~'), 'never next($pc) = ~', binary, linear)))],
           ways='all', only=[], domain={'$c': r'.*?next\(\?\w+\) = (.*?)\.instrs\.xs\[\?\w+\]\.default_', '$pc': r'next\((\?\w+)\) = .*\.default_', '$m': r'next\(\?\w+\) = (\(\?\w+\+\?\w+ / 2\)|\?\w+\+\(\?\w+-\?\w+ / 2\))$'}),
        Fn('lib/aarch64.c', 'EmitSearch', ['context', 'interval'], [
            Case('targets', [], Any(
                All('GetSingleTarget(interval) != -1', 'emit context.fout "  b .Lr.{context.func_id}.{GetSingleTarget(interval)}\n"', 'no call EmitSearch(~'),
                All(*test, lo, go(HIGH), Once('EmitSearch')),
                All(*test, hi, go(LOW), Once('EmitSearch')),
                All(*test, S % LOW + ' != -1', Any(b('.cc', S % LOW), b('.lo', S % LOW)), go(HIGH), Once('EmitSearch'), Order(r'emit (.|\n)*b\.eq', 'EmitSearch'), Order(r'emit (.|\n)*b\.(cc|lo)', 'EmitSearch')),
                All(*test, S % LOW + ' == -1', Any(*['emit context.fout "~  b.%s %s\n%s:\n"' % (c, L, L) for c in ('cc', 'lo')]), go(HIGH), go(LOW), 'context.label := context.label+1',
                    Order(r'emit (.|\n)*b\.(cc|lo)', 'EmitSearch'), Once(r'emit \.Lr\.'), Order(q('EmitSearch(context, %s)' % HIGH), r'emit \.Lr\.'), Order(r'emit \.Lr\.', q('EmitSearch(context, %s)' % LOW)))))],
           ways='all', only=['GetSingleTarget', 'EmitSearch'], pure=['GetSingleTarget']),
        Fn('lib/aarch64.c', 'GetSingleTarget', ['interval'], [
            Case('targets', [], Any(
                All('!interval.num_targets', 'return interval.default_'),
                All('interval.num_targets == 1', Any('interval.lo == interval.hi', 'interval.hi == interval.lo'), 'return interval.targets.target'),
                All('return -1', 'interval.num_targets')))], ways='all', only=[]),
    ]


LK = 'lib/link.c'
def parsing():
    """What each production of the grammar makes of its parts.  `#n` is what
    the n-th symbol stands for, `##` what the production makes."""
    import core
    E = {'$e': r'(FbleAllocRaw\(\d+\))\.tag := '}

    def node(tag, *what):
        return ['## := $e', '$e.tag := ' + tag, '$e.loc := at', *what]

    def expr(tag, **parts):
        return node(tag, *['$e.%s := %s' % kv for kv in sorted(parts.items())])

    def element(parts, v='$v'):
        """One more element of a vector, of the parts given."""
        return Any(All(*['%s.%s := %s' % (v, k, x) for k, x in sorted(parts.items())]), *['%s := {%s}' % (v, ', '.join('.%s=%s' % (k, parts[k]) for k in o)) for o in itertools.permutations(sorted(parts))]) if isinstance(parts, dict) else '%s := %s' % (v, parts)

    def first(parts):
        return ['##.size := 1', '##.xs := $v', element(parts)]

    def more(parts):
        return ['##.size := #1.size+1', element(parts, '#1.xs[#1.size]'), '## := #1']

    def chain(n, start, tag, rest, *more, **parts):
        """A node inside of a node, for each of n, the first outermost."""
        new = ['$e.tag := ' + tag, '$e.loc := at', *['$e.%s := %s' % kv for kv in sorted(parts.items())], *more]
        down = n if n.startswith('up ') else 'down ' + n
        return [Any(All('init($a) = ' + start, "## := $a'", Each(down, 'next($a) = $e', '$e.%s := $a' % rest, *new)),
                    All(Each(down, '## := $e', '$e.%s := ##' % rest, *new)))]

    poly = chain('#2.size', '#4', 'FBLE_POLY_KIND', 'rkind', arg='#2.xs[i]', refcount='1')
    func = lambda n, start: chain('#%d.size' % n, start, 'FBLE_FUNC_VALUE_EXPR', 'body', Any('$e.arg := #%d.xs[i]' % n, All('$e.arg.type := #%d.xs[i].type' % n, '$e.arg.name := #%d.xs[i].name' % n)))
    tagged = lambda n: {'type': '#%d.type' % n, 'name': '#%d.name' % n}
    name = lambda at, word, space: ['%s.name := FbleNewString(%s)' % (at, word), '%s.space := %s' % (at, space), '%s.loc := at' % at]
    P = {
        'start: PARSE_PROGRAM stmt': ['result := #2'],
        'start: PARSE_MODULE_PATH module_path': ['deps.size := deps.size+1', 'deps.xs[deps.size] := #2'],
        'name: WORD': name('##', '#1', 'FBLE_NORMAL_NAME_SPACE'),
        "name: WORD '@'": name('##', '#1', 'FBLE_TYPE_NAME_SPACE'),
        'path: WORD': ['## := FbleNewModulePath(at)', *name('FbleNewModulePath(at).path.xs[FbleNewModulePath(at).path.size]', '#1', 'FBLE_NORMAL_NAME_SPACE'),
                       'FbleNewModulePath(at).path.size := FbleNewModulePath(at).path.size+1'],
        "path: path '/' WORD": ['## := #1', *name('#1.path.xs[#1.path.size]', '#3', 'FBLE_NORMAL_NAME_SPACE'), '#1.path.size := #1.path.size+1'],
        "module_path: '/' path '%'": ['## := #2', '#2.loc := at', 'never #2.path.~ := ~'],
        "nkind: '%'": ['## := FbleNewBasicKind(at, 0)'],
        "tkind: '@'": ['## := FbleNewBasicKind(at, 1)'],
        "nkind: '<' tkind_p '>' nkind": poly, "tkind: '<' tkind_p '>' tkind": poly,
        'kind: nkind': ['## := #1'], 'kind: tkind': ['## := #1'],
        'tkind_p: tkind': first('#1'), "tkind_p: tkind_p ',' tkind": more('#3'),
        'tagged_kind_p: kind name': first({'kind': '#1', 'name': '#2'}), "tagged_kind_p: tagged_kind_p ',' kind name": more({'kind': '#3', 'name': '#4'}),
        "expr: '@' '<' expr '>'": expr('FBLE_TYPEOF_EXPR', expr='#3'),
        'expr: name': expr('FBLE_VAR_EXPR', var='#1'),
        'expr: module_path': [*expr('FBLE_MODULE_PATH_EXPR', path='#1'), Any(
            All('deps.size := deps.size+1', Any('deps.xs[deps.size] := #1', 'deps.xs[deps.size] := FbleCopyModulePath(#1)'), Each('deps.size', '!FbleModulePathsEqual(#1, deps.xs[i])')),
            All('FbleModulePathsEqual(#1, deps.xs[~])', 'never deps.~ := ~'))],
        "expr: '*' '(' tagged_type_s ')'": expr('FBLE_DATA_TYPE_EXPR', datatype='FBLE_STRUCT_DATATYPE', fields='#3'),
        "expr: '+' '(' tagged_type_p ')'": expr('FBLE_DATA_TYPE_EXPR', datatype='FBLE_UNION_DATATYPE', fields='#3'),
        "expr: expr '(' expr_s ')'": expr('FBLE_MISC_APPLY_EXPR', misc='#1', args='#3', bind='0'),
        "expr: '@' '(' implicit_tagged_expr_s ')'": expr('FBLE_STRUCT_VALUE_IMPLICIT_TYPE_EXPR', args='#3'),
        "expr: expr '.' name": expr('FBLE_DATA_ACCESS_EXPR', object='#1', field='#3'),
        "expr: expr '.' '@' '(' implicit_tagged_expr_p ')'": expr('FBLE_STRUCT_COPY_EXPR', src='#1', args='#5'),
        "expr: '%' '(' module_path ')'": expr('FBLE_PACKAGE_TYPE_EXPR', path='#3'),
        "expr: '%' '(' ')'": expr('FBLE_PACKAGE_TYPE_EXPR', path='FbleNewModulePath(at)'),
        "expr: expr '(' name ':' expr ')'": expr('FBLE_UNION_VALUE_EXPR', type='#1', field='#3', arg='#5'),
        "expr: expr '.' '?' '(' tagged_expr_p ')'": expr('FBLE_UNION_SELECT_EXPR', condition='#1', choices='#5', default_='0'),
        "expr: expr '.' '?' '(' tagged_expr_p ',' ':' expr ')'": expr('FBLE_UNION_SELECT_EXPR', condition='#1', choices='#5', default_='#8'),
        "expr: expr '<' expr_p '>'": chain('up #3.size', '#1', 'FBLE_POLY_APPLY_EXPR', 'poly', arg='#3.xs[i]'),
        "expr: expr '.' '%'": expr('FBLE_ABSTRACT_ACCESS_EXPR', value='#1'),
        "expr: expr '.' '<' expr '>' '(' expr ')'": expr('FBLE_ABSTRACT_CAST_EXPR', package='#1', target='#4', value='#7'),
        "expr: expr '[' expr_s ']'": expr('FBLE_LIST_EXPR', func='#1', args='#3'),
        "expr: expr '|' WORD": expr('FBLE_LITERAL_EXPR', func='#1', word='#3', word_loc='at3'),
        'expr: block': ['## := #1'],
        "block: '{' stmt '}'": ['## := #2'],
        "block: '(' expr_p ')' block": chain('#2.size', '#4', 'FBLE_FUNC_TYPE_EXPR', 'rtype', arg='#2.xs[i]'),
        "block: '(' tagged_type_p ')' block": func(2, '#4'),
        "block: '<' tagged_kind_p '>' block": chain('#2.size', '#4', 'FBLE_POLY_VALUE_EXPR', 'body', Any('$e.arg := #2.xs[i]', All('$e.arg.kind := #2.xs[i].kind', '$e.arg.name := #2.xs[i].name'))),
        "stmt: expr ';'": ['## := #1'],
        "stmt: let_binding_p ';' stmt": expr('FBLE_LET_EXPR', bindings='#1', body='#3'),
        "stmt: tagged_type_p '<' '-' expr ';' stmt": [
            *expr('FBLE_MISC_APPLY_EXPR', misc='#4', bind='1'), '$e.args.size := 1', '$e.args.xs := $v', "$v := $b'", 'init($b) = #6',
            Each('down #1.size', 'next($b) = $f', '$f.body := $b', '$f.tag := FBLE_FUNC_VALUE_EXPR', '$f.loc := at', Any('$f.arg := #1.xs[i]', All('$f.arg.type := #1.xs[i].type', '$f.arg.name := #1.xs[i].name')))],
        "stmt: expr ';' stmt": [Any(
            All('return 1', Any('#1.tag != FBLE_UNION_SELECT_EXPR', '#1.default_'), 'call FbleReportError(~, at3)', 'never #1.default_ := ~'),
            All('return 0', '#1.tag == FBLE_UNION_SELECT_EXPR', '!#1.default_', '#1.default_ := #3', '## := #1', 'never #1.condition := ~', 'never #1.choices~ := ~'))],
        'expr_p: expr': first('#1'), "expr_p: expr_p ',' expr": more('#3'),
        'expr_s: ': ['##.size := 0'], 'expr_s: expr_p': ['## := #1'],
        'tagged_type: expr name': ['##.type := #1', '##.name := #2'],
        'tagged_type_p: tagged_type': [Any(All(*first(tagged(1))), All(*first('#1')))], "tagged_type_p: tagged_type_p ',' tagged_type": [Any(All(*more(tagged(3))), All(*more('#3')))],
        'tagged_type_s: ': ['##.size := 0'], 'tagged_type_s: tagged_type_p': ['## := #1'],
        'implicit_tagged_expr: name': ['##.name := #1', '##.expr := $e', '$e.tag := FBLE_VAR_EXPR', '$e.loc := at', '$e.var := #1'],
        "implicit_tagged_expr: name ':' expr": ['##.name := #1', '##.expr := #3'],
        'implicit_tagged_expr_p: implicit_tagged_expr': first('#1'), "implicit_tagged_expr_p: implicit_tagged_expr_p ',' implicit_tagged_expr": more('#3'),
        'implicit_tagged_expr_s: ': ['##.size := 0'], 'implicit_tagged_expr_s: implicit_tagged_expr_p': ['## := #1'],
        "tagged_expr: name ':' expr": ['##.name := #1', '##.expr := #3'],
        'tagged_expr_p: tagged_expr': first('#1'), "tagged_expr_p: tagged_expr_p ',' tagged_expr": more('#3'),
        "let_binding_p: expr name '=' expr": first({'kind': '0', 'type': '#1', 'name': '#2', 'expr': '#4'}),
        "let_binding_p: kind name '=' expr": first({'kind': '#1', 'type': '0', 'name': '#2', 'expr': '#4'}),
        "let_binding_p: let_binding_p ',' expr name '=' expr": more({'kind': '0', 'type': '#3', 'name': '#4', 'expr': '#6'}),
        "let_binding_p: let_binding_p ',' kind name '=' expr": more({'kind': '#3', 'type': '0', 'name': '#4', 'expr': '#6'}),
    }
    prods, types = core.gen().productions(), core.gen().types
    out = []
    for no, (lhs, rhs, lt, rt) in sorted(prods.items()):
        key = '%s: %s' % (lhs, ' '.join(rhs))
        if key not in P:
            continue
        fill = lambda x: re.sub(r'#(\d)', lambda m: 's%s.%s' % (m.group(1), types.get(rhs[int(m.group(1)) - 1])), x.replace('##', 'ss.%s' % lt))
        params = ['ss', 'at', 'result', 'deps'] + [x for i in range(1, len(rhs) + 1) for x in ('s%d' % i, 'at%d' % i)]
        out.append(Fn('lib/parse.rules', 'Rule_%d' % (no + 1), params, [Case(key, [], *[each_text(x, fill) for x in P[key]])], ways='all', only=ONLY,
                      domain={'$e': r'(FbleAllocRaw\(\d+\))\.tag := ', '$f': r'next\(.*\) = (FbleAllocRaw\(\d+\))', '$v': r'.*\.xs := (FbleAllocRaw\(\d+\))$'}))
    return out


def each_text(x, f):
    """A demand with each of its texts put through f."""
    if isinstance(x, str):
        return f(x)
    y = copy.copy(x)
    for k, v in vars(x).items():
        if isinstance(v, str):
            setattr(y, k, f(v))
        elif isinstance(v, (list, tuple)):
            setattr(y, k, type(v)(each_text(z, f) for z in v))
    return y


ONLY = ['FbleCopyLoc', 'FbleNewModulePath', 'FbleModulePathsEqual', 'FbleCopyModulePath', 'FbleNewString', 'FbleFreeExpr', 'FbleFree', 'FbleFreeLoc', 'FbleCopyName', 'FbleNewBasicKind', 'FbleReportError']


def lexing():
    """Text is divided into tokens without losing or moving any of it."""
    Y = 'lib/parse.y'

    def at(l, c):
        return [Any('llocp := ' + l, All('never llocp := ~', 'never llocp.~ := ~'), All('llocp.col := %s.col' % l, 'llocp.line := %s.line' % l, Any('llocp.source := %s.source' % l, 'llocp.source := lex.loc.source')))]

    def token(l, c):
        k = lambda x: x.replace('%', c)
        return All(*at(l, c), Any(
            All('return 0', k('% == -1'), 'never lvalp.~ := ~'),
            All('return ' + c, k('% != -1'), k('IsPunctuationChar(%)'), 'lex.c := read~'),
            All('return 260', k('% != -1'), k('!IsPunctuationChar(%)'), 'lvalp.word := $w', "$w[~] := 0", Any(
                All(k('% != 39'), Ends('!IsWordChar(~)'), Each('~', 'IsWordChar($d)', '$w[$n] := $d', 'next($n) = $n+1', 'call ReadNextChar(lex)', 'lex.c := read~')),
                All(k('% == 39'), 'never $w[~] := 39', Part('~', Any(Each('~', '$i != -1', '$i != 39', '$w[$n] := $i', 'next($n) = $n+1', 'call ReadNextChar(lex)'),
                                                                          All(*['no ~[~] := ' + x for x in ('lex.c', 'read~', '?~')])), Any(All('$w[~] := 39', Any('read~ == 39', 'lex.c == 39', '?~ == 39')), All('!?~', 'never $w[~] := ~'))))))))
    RD = [(0, ('c',), 'read'), (0, ('loc',), 'past')]
    return [
        Fn(Y, 'ReadNextChar', ['lex'], [
            Case('the next', [], Any(All('lex.fin', 'call fgetc(lex.fin)', 'lex.c := fgetc(lex.fin)', 'never lex.sin := ~'),
                                     All('!lex.fin', Any(All('lex.sin', Any('lex.c := lex.sin', 'lex.c := lex.sin[0]'), 'lex.sin := lex.sin[1]'), All('!lex.sin', 'lex.c := -1', 'never lex.sin := ~'))))),
            Case('where it is', [], Any(All('lex.c == 10', 'lex.loc.line := lex.loc.line+1', 'lex.loc.col := 1'),
                                        All('lex.c == -1', 'never lex.loc.~ := ~'), All('lex.c != 10', 'lex.c != -1', 'lex.loc.col := lex.loc.col+1', 'never lex.loc.line := ~')))],
           ways='all', only=['fgetc']),
        Fn(Y, 'yylex', ['lvalp', 'llocp', 'lex'], [
            Case('a token', [], Any(All('return lex.start_token', 'lex.start_token', 'lex.start_token := 0', 'never call ReadNextChar(~'),
                                    All('!lex.start_token', Any(*[token(*x) for x in (('?loop', '?loop'), ('lex.loc', 'lex.c'), ('past$t', 'read$t'))])))),
            Case('no text is lost', ['!lex.start_token'], Part('~', 'call ReadNextChar(lex)', 'no lvalp.~ := ~', Any(
                '(__ctype_b_loc()[~] & 8192)', 'IsSpaceChar(~)', All(Any('?~', '~ == 35'), Each('~', 'call ReadNextChar(lex)', '~ != -1', '~ != 10')))))],
           ways='all', only=['ReadNextChar', 'IsPunctuationChar', 'IsWordChar', 'IsSpaceChar'], stirs={'ReadNextChar': RD},
           domain={'$w': r'lvalp\.word := (.*)$', '$d': r'IsWordChar\((.*)\)$', '$i': r'(\S+) != 39$', '$t': r'llocp(?:\.col)? := past(@\d+)'}),
    ]


def profiling():
    """Each call is counted once, and time goes to the calls in progress."""
    F = 'lib/profile.c'
    C = 'thread.calls.top.id'
    G = 'GetCallData(thread.profile, %s, block)' % C
    B = 'thread.profile.blocks.xs[block].block.count'
    grown = 'FbleReAllocRaw(thread.sample_set, 24*thread.profile.blocks.size)'

    def up(x):
        return '%s := %s+1' % (x, x)

    def down(x):
        return '%s := %s-1' % (x, x)

    def entered(S):
        top = lambda n: Any(All('replace', 'never call CallStackPush(~', 'thread.calls.top.id := block', *([up('thread.calls.top.exit')] if n else ['never thread.calls.top.exit := ~'])),
                            All('!replace', 'CallStackPush(thread).id := block', 'CallStackPush(thread).exit := %d' % n, 'never thread.calls.top.~ := ~'))
        new = All(Each('up %s[%s].size' % (S, C), '%s[%s].xs[i].id != block' % (S, C)), up(G + '.count'), up('thread.sample.size'),
                  '$p[thread.sample.size].call := ' + G, '$p[thread.sample.size].caller := ' + C,
                  Any(up('%s[%s].size' % (S, C)), All(Any('!%s[%s].capacity' % (S, C), '!%s[%s].size' % (S, C)), '%s[%s].size := 1' % (S, C))),
                  Any('~[%s[%s].size] := %s' % (S, C, G), 'FbleAllocRaw(~) := ' + G), top(1))
        hunt = lambda E: All('init($d) = 0', E('up %s[%s].size' % (S, C), Any(All('%s[%s].xs[i].id == block' % (S, C), 'next($d) = %s[%s].xs[i]' % (S, C)), All('%s[%s].xs[i].id != block' % (S, C), 'next($d) = $d'))))
        one = lambda *f: Any(All('%s[%s].xs[$i].id == block' % (S, C), up('%s[%s].xs[$i].count' % (S, C)), *f), All(hunt(Each), "$d'", up("$d'.count"), *f), All(hunt(Part), '$d', up('$d.count'), *f))
        running = one('no thread.sample.size := ~', 'no call GetCallData(~', 'no %s[%s].size := ~' % (S, C), top(0))
        new = All(Any(Each('up %s[%s].size' % (S, C), '%s[%s].xs[i].id != block' % (S, C)), All(hunt(Each), "!$d'")), *new.what[1:])
        return Any(running, new, '!%s[%s].xs[~]' % (S, C))
    T = 'thread.calls.top'
    N = 'profile.blocks'
    X = 'profile.blocks.xs[caller].callees.xs'
    new = '$c.id := callee', '$c.time := 0', '$c.count := 0', 'return $c'
    put = ['call FbleExtendVectorRaw(8, &profile.blocks.xs[caller].callees.size, &profile.blocks.xs[caller].callees.xs)']
    search = Part('~', Any(All('next($l) = $m+1', 'next($h) = $h', Any(X + '[$m].id < callee', 'callee >= %s[$m].id' % X)), All('next($l) = $l', 'next($h) = $m', Any(X + '[$m].id >= callee', 'callee < %s[$m].id' % X))), 'no ~ := ~')

    def merge(src, dst, flip):
        P = lambda x: Part('~', '$d := $' + x, 'next($d) = $d[1]', 'next($%s) = $%s[1]' % (x, x))
        both = '$s < %s[(size / 2)]' % src, '$t < %s[size]' % src
        one, two = All('$d := $s', 'next($d) = $d[1]', 'next($s) = $s[1]', 'next($t) = $t'), All('$d := $t', 'next($d) = $d[1]', 'next($t) = $t[1]', 'next($s) = $s')
        less, more = Any('$s.time < $t.time', '$t.time >= $s.time'), Any('$t.time < $s.time', '$s.time >= $t.time')
        half = lambda *x: Any(*['call MergeSortCallData(order, %s, %s)' % (f, y) for f in ('bool[nz[in_place],False]', flip) for y in x])
        return All(half('a, b, (size / 2)'), half('a[(size / 2)], b[(size / 2)], size-(size / 2)'), 'init($d) = ' + dst, 'init($s) = ' + src, 'init($t) = %s[(size / 2)]' % src,
                   P('s'), P('t'), Part('~', *both, Any(All('order', Any(All(one, more), All(two, less))), All('!order', Any(All(one, less), All(two, more))))))

    D = 'out:SortCallData(1, [&profile.blocks.xs[*].block], profile.blocks.size)'
    W = 'out:SortCallData(1, [$s], profile.blocks.size)'
    own = 'profile.blocks.xs[%s[i].id]' % D
    return [
        Fn(F, 'EnterBlock', ['thread', 'block', 'replace'], [
            Case('counted', [], up(B), Any(All(C + ' < thread.sample_set_size', entered('thread.sample_set')),
                                           All(C + ' >= thread.sample_set_size', 'thread.sample_set_size := thread.profile.blocks.size', 'thread.sample_set := ' + grown,
                                               'call memset(%s[thread.sample_set_size], 0, 24*thread.profile.blocks.size-24*thread.sample_set_size)' % grown, entered(grown))))],
           ways='all', only=['GetCallData', 'CallStackPush'], domain={'$i': r'.*?\.xs\[(e\{.*)\]\.id == block$', '$p': r'(.*)\[thread\.sample\.size\]\.call := '}),
        Fn(F, 'FbleProfileEnterBlock', ['thread', 'block'], [Case('off', ['!thread'], 'no call ~'), Case('on', ['thread'], 'call EnterBlock(thread, block, 0)')], ways='all', only=['EnterBlock']),
        Fn(F, 'FbleProfileReplaceBlock', ['thread', 'block'], [Case('off', ['!thread'], 'no call ~'), Case('on', ['thread'], 'call EnterBlock(thread, block, 1)')], ways='all', only=['EnterBlock']),
        Fn(F, 'FbleProfileExitBlock', ['thread'], [
            Case('off', ['!thread'], 'no call ~'),
            Case('on', ['thread'], 'call CallStackPop(thread)', Each('~', down(T + '.exit'), down('thread.sample.size'), down('thread.sample_set[thread.sample.xs[thread.sample.size-1].caller].size')), Ends('!%s.exit' % T))],
           ways='all', only=['CallStackPop']),
        Fn(F, 'FbleProfileSample', ['thread', 'time'], [
            Case('off', ['!thread'], 'no ~ := ~'),
            Case('on', ['thread'], 'thread.profile.blocks.xs[{0}].self := thread.profile.blocks.xs[{0}].self+time'.format(C), 'thread.profile.blocks.xs.block.time := thread.profile.blocks.xs.block.time+time',
                 Any(*[Each(d + ' thread.sample.size', 'thread.sample.xs[i].call.time := thread.sample.xs[i].call.time+time',
                      Any(All(Any('!out:memset(~)[thread.sample.xs[i].call.id]', '!0'), '~[thread.sample.xs[i].call.id] := 1', 'thread.profile.blocks.xs[{0}].block.time := thread.profile.blocks.xs[{0}].block.time+time'.format('thread.sample.xs[i].call.id')),
                          All(Any('out:memset(~)[thread.sample.xs[i].call.id]', '0'), 'no ~.block.time := ~'))) for d in ('up', 'down')]))],
           ways='all'),
        Fn(F, 'FbleProfileRandomSample', ['thread', 'count'], [
            Case('off', ['!thread'], 'no call ~'), Case('on', ['thread'], Part('~', 'call FbleProfileSample(thread, 1)', 'call rand()', 'thread.ttrs := ~'))], ways='all', only=['FbleProfileSample']),
        Fn(F, 'CallStackPush', ['thread'], [
            Case('room', [], Any(
                All(T + '[1] != thread.calls.end', 'thread.calls.top := thread.calls.top[1]', 'return thread.calls.top[1]', 'never thread.calls := ~'),
                All(T + '[1] == thread.calls.end', 'thread.calls.next', 'thread.calls.top := thread.calls.top[1]', 'thread.calls := thread.calls.next', Any('return thread.calls.next.top', 'return &thread.calls.next.data[0]'), 'never thread.calls.next.~ := ~'),
                All(T + '[1] == thread.calls.end', '!thread.calls.next', 'thread.calls.top := thread.calls.top[1]', 'thread.calls := $c', 'thread.calls.next := $c', 'return &$c.data[0]', '$c.top := &$c.data[0]', '$c.tail := thread.calls', '$c.next := 0', '$c.end := &$c.data[~]')))],
           ways='all', domain={'$c': r'(FbleAllocRaw\(.*\))\.tail := '}),
        Fn(F, 'CallStackPop', ['thread'], [
            Case('popped', [], Any(All(Any('&thread.calls.data[0] == thread.calls.top', '&thread.calls.data[0] >= thread.calls.top'), 'thread.calls := thread.calls.tail', 'thread.calls.tail.top := thread.calls.tail.top[-1]', 'never call FbleFree(thread.calls)'),
                                   All(Any('&thread.calls.data[0] != thread.calls.top', '&thread.calls.data[0] < thread.calls.top'), 'thread.calls.top := thread.calls.top[-1]', 'no call FbleFree(~', 'never thread.calls := ~')), Any('no call FbleFree(~', All('call FbleFree(thread.calls.next)', 'thread.calls.next := 0', 'thread.calls := thread.calls.tail')))], ways='all'),
        Fn(F, 'GetCallData', ['profile', 'caller', 'callee'], [
            Case('one for each pair', [], search, Part('~', '~'), Any(
                All('return %s[$i]' % X, Any('%s[$i].id == callee' % X), 'never call FbleAllocRaw(~', 'never ~ := ~'),
                All(*new, *put, Any(Each('up profile.blocks.xs[caller].callees.size', X + '[i].id != callee'), Ends('$l >= $h'))))),
            Case('kept in order', [], Any('return %s[$i]' % X, All("init($k) = $l'", 'init($d) = $c', Part('~', 'next($d) = %s[$k]' % X, '%s[$k] := $d' % X, 'next($k) = $k+1')), Each('up profile.blocks.xs[caller].callees.size', X + '[i].id != callee')))],
           ways='all', domain={'$i': r'profile\.blocks\.xs\[caller\]\.callees\.xs\[(.*)\]\.id == callee$', '$c': r'(FbleAllocRaw\(.*\))\.id := callee$', '$m': r'(?:callee (?:<|>=) )?profile\.blocks\.xs\[caller\]\.callees\.xs\[(.*)\]\.id(?: (?:<|>=) callee)?$'}),
        Fn(F, 'FbleAddBlockToProfile', ['profile', 'name'], [
            Case('the next id', [], 'return profile.blocks.size', '$b.name := name', '$b.self := 0', '$b.block.id := profile.blocks.size', '$b.block.count := 0', '$b.block.time := 0', '$b.callees.size := 0',
                 '~[profile.blocks.size] := $b', up('profile.blocks.size'))], ways='all', domain={'$b': r'(FbleAllocRaw\(\d+\))\.name := name$'}),
        Fn(F, 'FbleAddBlocksToProfile', ['profile', 'names'], [
            Case('one after another', [], 'return profile.blocks.size', Each('up names.size', Any('call FbleAddBlockToProfile(profile, FbleCopyName(names.xs[i]))', All('call FbleCopyName(names.xs[i])', 'call FbleAddBlockToProfile(profile, ~)'))))],
           ways='all', only=['FbleAddBlockToProfile', 'FbleCopyName']),
        Fn(F, 'FbleNewProfileThread', ['profile'], [
            Case('off', ['!profile.enabled'], 'return 0', 'no ~ := ~'),
            Case('on', ['profile.enabled'], 'return $t', '$t.profile := profile', '$t.calls := $c', '$c.tail := 0', '$c.next := 0', '$c.top := &$c.data[0]', '$c.data[0].id := 0', '$c.data[0].exit := 0',
                 '$t.sample.size := 0', '$t.sample_set_size := profile.blocks.size', '$t.sample_set := FbleAllocRaw(24*profile.blocks.size)', 'call memset(FbleAllocRaw(24*profile.blocks.size), 0, 24*profile.blocks.size)',
                 up('profile.blocks.xs.block.count'))], ways='all', domain={'$t': r'(FbleAllocRaw\(.*\))\.profile := profile$', '$c': r'.*\.calls := (FbleAllocRaw\(.*\))$'}),
        Fn(F, 'SortCallData', ['order', 'data', 'size'], [Case('sorted', [], 'call MergeSortCallData(order, 1, data, ~, size)')], ways='all', only=['MergeSortCallData']),
        Fn(F, 'PrintCallData', ['fout', 'profile', 'block', 'call'], [
            Case('a block', ['block'], 'emit fout "** {call.count} {call.time} {profile.blocks.xs[call.id].self}  {&profile.blocks.xs[call.id].name.name.str[0]}[{call.id}X] **\n"'),
            Case('a call', ['!block'], 'emit fout "   {call.count} {call.time}   {&profile.blocks.xs[call.id].name.name.str[0]}[{call.id}X]   \n"')], ways='all'),
        Fn(F, 'FbleGenerateProfileReport', ['fout', 'profile'], [
            Case('off', ['!profile.enabled'], 'no call ~', 'no emit ~'),
            Case('every call from both sides', ['profile.enabled'], Each('up profile.blocks.size', '~[i] := &profile.blocks.xs[i].block',
                 Each('up profile.blocks.xs[i].callees.size', '$c.id := i', Any('$c := profile.blocks.xs[i].callees.xs[j]', All('$c.count := profile.blocks.xs[i].callees.xs[j].count', '$c.time := profile.blocks.xs[i].callees.xs[j].time')),
                      '~@profile.blocks.xs[i].callees.xs[j].id[0] := $c')),
                 Each('up profile.blocks.size', '$s.id := profile.blocks.xs[i].block.id', '$s.time := profile.blocks.xs[i].self', '~[i] := $s')),
            Case('own time', ['profile.enabled'], 'init($t) = 0', Part('~', 'next($t) = $t+profile.blocks.xs[i].self'), Each('up profile.blocks.size', 'call PrintBlockName(fout, profile, %s[i].id)' % W,
                 Any(*['emit fout "~{(100*%s[i].time / %s)}~"' % (W, x) for x in ("$t'",)]))),
            Case('covered', ['profile.enabled'], 'emit fout "~{100*($t\' / profile.blocks.size)}~"', 'init($t) = 0', Part('~', Any(All('next($t) = $t+1', 'profile.blocks.xs[i].block.count'), All('next($t) = $t', '!profile.blocks.xs[i].block.count')))),
            Case('every block', ['profile.enabled'], Each('up profile.blocks.size', 'call PrintCallData(fout, profile, 1, %s[i])' % D)),
            Case('covered blocks', ['profile.enabled'], Each('up profile.blocks.size', Any('!%s.block.count' % own, All(own + '.block.count', 'call PrintCallData(fout, profile, 1, %s[i])' % D,
                 'call SortCallData(0, ~@%s[i].id, ~)' % D, Part('~', 'call PrintCallData(fout, profile, 0, ~@%s[i].id[j])' % D),
                 Any(Each('up %s.callees.size' % own, 'call PrintCallData(fout, profile, 0, out:SortCallData(1, [%s.callees.xs[*]], %s.callees.size)[j])' % (own, own)),
                     All('call memcpy(~, %s.callees.xs, 8*%s.callees.size)' % (own, own), Each('up %s.callees.size' % own, 'call PrintCallData(fout, profile, 0, out:SortCallData(1, ~, %s.callees.size)[j])' % own))))))),
            Case('locations', ['profile.enabled'], Each('up profile.blocks.size', Any('call PrintBlockName(fout, profile, profile.blocks.xs[i].block.id)', 'call PrintBlockName(fout, profile, i)'),
                 'emit fout ": {&profile.blocks.xs[i].name.loc.source.str[0]}:{profile.blocks.xs[i].name.loc.line}:{profile.blocks.xs[i].name.loc.col}\n"'))],
           ways='all', only=['SortCallData', 'PrintCallData', 'PrintBlockName'], domain={'$c': r'(FbleAllocRaw\(\d+\))(?:\.count)? := profile', '$s': r'(FbleAllocRaw\(\d+\))\.time := profile\.blocks\.xs\[i\]\.self$'}),
        Fn(F, 'MergeSortCallData', ['order', 'in_place', 'a', 'b', 'size'], [
            Case('one', ['size', 'size == 1', 'size < 2'], Any(All('in_place', 'no ~ := ~'), All('!in_place', 'b := a'))),
            Case('none', ['!size', 'size < 2', 'size != 1'], 'no ~ := ~'),
            Case('two halves', ['size', 'size != 1', 'size >= 2'], Any(All('size != 1', 'size < 2', 'no ~ := ~'), All('in_place', merge('b', 'a', '0')), All('!in_place', merge('a', 'b', '1'))))], ways='all', only=['MergeSortCallData']),
    ]


def crossing():
    import crossing as x
    return x.crossing()


TABLES = {'crossing': crossing, 'profiling': profiling, 'lexing': lexing, 'parsing': parsing, 'selects': selects, 'application': application, 'linking': linking, 'lowering': lowering, 'loading': loading, 'values': lambda: values() + lists(V, 'value', 'value.h.gc.list'), 'initial': initial, 'accessors': accessors, 'types': lambda: types() + lists(T, 'obj', 'obj.list')}
if __name__ == '__main__':
    import sys, rules
    for t in [a for a in sys.argv[1:] if a[0] != '-'] or TABLES:
        for r in rules.check(TABLES[t]()) + (__import__('crossing').characters() if t == 'crossing' else []):
            if r['status'] != 'ok' or '-v' in sys.argv:
                print((r['func'], r['status'], r.get('why')))
            for v in r['violations']:
                print((v['file'], v['function'], v['line'], v['msg']))
