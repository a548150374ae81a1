"""Which analyses decide which property."""
import fe
import contracts
import mon
import lint
import core


class Check(object):
    def __init__(self, pid, technique, note, parts, explain, assume=()):
        self.pid = pid; self.technique = technique; self.note = note; self.parts = parts
        self.explain = explain; self.assume = list(assume)


class Own(object):
    """Ownership analysis of every entry point of some sources, reporting the
    given rules (all of them by default)."""

    def __init__(self, files, rules=None, hooks=(), want=None):
        self.files = files; self.rules = rules; self.hooks = hooks; self.want = want

    def rels(self):
        fs = self.files() if callable(self.files) else self.files
        have = set(fe.sources())
        return [f for f in fs if f in have]


MEM = None
LIFE = {'leak', 'unowned', 'over-release', 'double-release', 'use-after-release', 'dangling', 'gc-edge'}

TYPECHECK = ['lib/typecheck.c', 'lib/type.c', 'lib/tc.c', 'lib/kind.c', 'lib/name.c', 'lib/loc.c', 'lib/string.c']
PARSE = ['lib/parse.y', 'lib/load.c', 'lib/module-path.c', 'lib/expr.c', 'lib/unused.c']
BACK = ['lib/compile.c', 'lib/code.c', 'lib/link.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c']
FBLD = ['fbld/eval.c', 'fbld/parse.c', 'fbld/markup.c', 'fbld/fbld.c']


def tools():
    return [r for r in fe.sources() if r.split('/')[0] in ('bin', 'test', 'pkgs')] + ['lib/arg-parse.c', 'lib/profile.c', 'fbld/fbld.c']


_OWN = 'Every entry point is run through an abstract interpreter that follows ownership along every path of the source: ' \
       'what is acquired must be released or handed over exactly once by every return, nothing may be used after its last release, and ' \
       'callees are taken at their contracts, which are themselves checked against the bodies of the callees.'
_ASSUME = ['allocation does not fail', 'contracts of libc functions', 'a loop treats every element of an array alike',
           'calls through function pointers and to functions without a contract neither release nor keep what they are given']


def own_check(pid, files, what):
    return Check(pid, 'path-sensitive ownership and typestate dataflow over the syntax tree',
                 'Decides the release discipline of %s on the source, for all inputs, up to the abstraction: arrays are judged by one representative element, '
                 'and past a bound on states a sample of the paths of a function is followed (counted in the evidence). Trusts the contracts of libc and of allocation.' % what,
                 [Own(files)], _OWN, _ASSUME)


CHECKS = {}


def add(c):
    CHECKS[c.pid] = c


add(own_check('C01', TYPECHECK, 'the type checker'))
add(own_check('C02', PARSE, 'the parser (each grammar action and discard rule) and the loader'))
add(own_check('C03', BACK, 'the compiler, linker, disassembler and code generators'))
add(own_check('C04', FBLD, 'the document processor'))
add(own_check('C05', tools, 'the tools and drivers'))


def main_or_args(rel, f):
    return f in mon.MAINS or f in mon.ARGPARSE


add(Check('C08', 'path-sensitive error-reporting typestate over the syntax tree',
          'Every function that can reject its input is followed along every path of its source: it must have reported (or have been told by a failing callee) '
          'whenever it fails, and must fail whenever it has reported. Loops are judged by one representative element; when that stage fails for other elements is not followed. '
          'Failures the generated parser tables decide are out of view, apart from the actions of the grammar.',
          [Own(['lib/typecheck.c', 'lib/load.c', 'lib/parse.y', 'lib/compile.c', 'lib/link.c', 'fbld/eval.c', 'fbld/parse.c', 'fbld/markup.c'],
               rules={'silent-rejection', 'accepted-after-error'}, hooks=('diag',))],
          'Rides along with the interpreter of the ownership analysis: a flag records that an error has been reported, by a reporting call or by a callee whose '
          'result says it failed; each return is an obligation that result and flag agree.', _ASSUME))
add(Check('C14', 'path-sensitive exit-status typestate over the syntax tree',
          'Every tool is followed along every path of its main function: a success status needs every argument, stage and file to have been in order and what was asked for '
          'to have been produced; a failure status needs something to have failed. Argument parsing must consume what it accepts and report what it rejects, '
          'and argument loops must make progress.',
          [Own(lambda: [r for r in tools() if r != 'lib/profile.c'], rules={'silent-failure', 'success-after-error', 'no-progress', 'no-output', 'arg-lost'}, hooks=('exit',), want=main_or_args)],
          'A flag records the first thing that failed on a path, others which options were given and which outputs produced; each return of a main function '
          'or argument parser is an obligation that the status agrees with them.', _ASSUME))


def everything():
    return [r for r in fe.sources() if r not in contracts.COLLECTORS]


def table_of(name):
    import tables, rules
    return lambda: rules.check(tables.TABLES[name]())


NODES = [f for f in TYPECHECK + PARSE + BACK + ['fbld/eval.c', 'fbld/parse.c', 'fbld/markup.c']]
add(Check('C10', 'path-sensitive tag typestate over the syntax tree',
          'Wherever a function follows a pointer as one kind of node, the tag of the object must be known to name that kind on every path that leads there: '
          'by a test, a switch, the way the object was made, or the contract of the function.',
          [Own(NODES, rules={'tag'})],
          'The interpreter of the ownership analysis knows the tag of each object as far as the path has established it; each access to a field of a specific kind of node is an obligation.', _ASSUME))
add(Check('C15', 'path-sensitive definite initialization over the syntax tree',
          'Memory is unset when allocated or declared, field by field; every read, every comparison, every argument and every object that survives a function must be set on every path.',
          [Own(everything, rules={'uninit-read', 'uninit-field'}), table_of('initial')],
          'The interpreter of the ownership analysis tracks which fields and locals have been set; each use is an obligation.', _ASSUME))
add(Check('C18', 'path-sensitive null typestate over the syntax tree',
          'Results that may be absent, as contracts say and contracts are checked against bodies, must be known to be present on every path where they are used or handed to what relies on them.',
          [Own(everything, rules={'null-use', 'null-return'})],
          'The interpreter of the ownership analysis forks where a result may be absent; using one on a path where it is absent is a violation.', _ASSUME))


class Lint(object):
    """Rules over all sources at once."""

    def __init__(self, rule, files=None):
        self.rule = rule; self.files = files

    def __call__(self):
        rels = self.files() if callable(self.files) else self.files or fe.sources()
        have = set(fe.sources())
        rels = [r for r in rels if r in have]
        core.load_all(rels)
        return self.rule({r: core.tu(r) for r in rels})


add(Check('C16', 'format string analysis over the typed syntax tree',
          'Every call of a function that takes a format, in the C library or in the program (the directives of the latter are read off its definition), is compared with its format: '
          'number and types of the arguments, and that the format is a constant.',
          [Lint(lint.formats)],
          'Which functions take formats and what each directive takes is derived from the definitions of the variadic functions; each call with a format is an obligation.', []))

add(Check('C11', 'path-sensitive scope typestate over the syntax tree',
          'Each stage that keeps a scope is followed along every path: what a construct enters it has left again on each of its ways out, newest first, '
          'whether it succeeds or fails, and what it looks up or checks in between happens with the scope its own construct demands. '
          'Loops are judged by one representative element.',
          [Own(['lib/typecheck.c'], rules={'scope'}, hooks=('scopes',)), Own(['lib/compile.c'], rules={'scope'}, hooks=('emit',)),
           Own(['lib/unused.c'], rules={'scope'}, hooks=('unused',))],
          'The interpreter of the ownership analysis carries, along each path, which names are in scope and in what order they were entered; '
          'each return of a construct is an obligation that the scope is what it was at entry.', _ASSUME))


def backends(*rules):
    import backend
    return lambda: backend.compare(set(rules))


def calls(*rules):
    import runtime
    return lambda: runtime.protocol(set(rules))


_RUN = 'Every function that pushes or pops frames, enters or exits profiling blocks or runs the code of a function is evaluated on abstract terms, with what it calls within its file; ' \
       'each way through is replayed against the protocol of calls.'
_CMP = 'For each kind of instruction, the interpreter, the C generator and the AArch64 generator are each evaluated on abstract terms; the C they emit is parsed by clang and ' \
       'evaluated the same way, the assembly is put through a model of the few machine instructions it uses; each way through gives the runtime operations performed and how it ends. ' \
       'Each is an obligation against what the instruction is to do.'
_CMPA = ['the runtime functions the backends call do what their names say', 'a loop treats every element of an array alike']

add(Check('C09', 'abstract evaluation of the interpreter and of the code templates of the generators, compared with one another',
          'Each instruction in each backend: the test for an undefined, wrongly tagged or vacuous value, that the way on which it fails reports its diagnostic at the location of the '
          'construct and ends the function by returning no value, and that no other way uses the value untested; what the accessors of values answer for one that is not there or has another tag. The generated texts are judged, not their execution.',
          [backends('abort', 'missing'), calls('abort'), table_of('accessors')], _CMP + ' ' + _RUN, _CMPA))
add(Check('C13', 'abstract evaluation of the interpreter and code templates; path-sensitive profiling typestate over the syntax tree',
          'Instrumentation by the compiler is followed along every path: what is entered is left, or replaced by the block of a tail call, on each way out. '
          'Each backend performs the profiling of each instruction, only when there is a profile.',
          [Own(['lib/compile.c'], rules={'profile'}, hooks=('emit',)), backends('profile'), calls('profile')],
          'The interpreter of the ownership analysis carries the profiling blocks entered along each path of the compiler; each return is an obligation. ' + _CMP + ' ' + _RUN, _ASSUME + _CMPA))
add(Check('C23', 'abstract evaluation of the interpreter and code templates; path-sensitive tail-position typestate over the syntax tree',
          'The compiler emits a tail call for every call in tail position, and a return for every other value in tail position; every backend hands a tail call to the runtime '
          'and returns at once instead of calling. The runtime makes a pending tail call in a loop, in the frame of its caller, and starts with all the machine stack there may be.',
          [Own(['lib/compile.c'], rules={'tail'}, hooks=('emit',)), backends('tail'), calls('tail')],
          'The interpreter of the ownership analysis knows, along each path of the compiler, whether the expression is in tail position and what has been emitted. ' + _CMP + ' ' + _RUN, _ASSUME + _CMPA))
add(Check('C28', 'abstract evaluation of the interpreter and of the code templates of the generators, compared with one another',
          'Each instruction in each backend: same runtime operations, on the same operands, in the same order, with the same results stored, same way on; same description of each '
          'module; generated assembly keeps the registers and the stack of its caller and stays within its frame; the searches for the branch of a union select find it if it is there. The generated texts are judged, not their execution.',
          [backends('operands', 'frame', 'missing', 'module', 'abort', 'profile', 'tail'), table_of('selects')], _CMP, _CMPA))
add(Check('C12', 'abstract evaluation of the runtime and of code written against it, replayed against the protocol of calls',
          'Each way through each function that pushes or pops frames: pushes and pops balance, nothing made in a frame is used after it is popped unless it was the value kept, '
          'a function is run in a frame of its own, and its arguments are all handed on, within the room made for them. '
          'What pushing and popping do to the memory of the frames is not judged here.',
          [calls('frames', 'apply')], _RUN, ['a loop treats every element of an array alike']))


def rule_table():
    import rules
    return rules.check()


add(Check('C17', 'abstract evaluation of the type checker on terms; facts established on each accepting way, against a table of typing rules',
          'Each way through the type checker, type comparison, type inference and the small functions they rest on that accepts what it is given: for each construct, the facts its typing '
          'rule demands are established, for every element where the rule speaks of all of them. That the rules of the table make a sound type system is not judged, nor what the '
          'parser made of the text.',
          [rule_table],
          'Each function is evaluated on abstract terms; loops are generalized over what they carry, flags raised in a round are followed to the way out. '
          'Each way that accepts is read as a set of facts; each demand of the rule of the construct is an obligation.',
          ['a loop treats every element of an array alike']))


def node_table(*names):
    import nodes
    return lambda: nodes.check([t for t in nodes.table() if not names or t.func in names])


add(Check('C20', 'abstract evaluation of each traversal on terms; the parts of each kind of node, read off its declaration, against what each way through handles',
          'Traversals that check, rewrite, compile, search, register and free expressions, typed expressions, types, kinds, instructions and markup: each way through that '
          'handles a kind of node hands each part of that kind, and each element of each of its vectors, to the function for such parts exactly once; rewriting traversals '
          'put each rewritten part where it was, and keep the rest. Printing is not judged, nor traversals that keep a stack of their own.',
          [node_table()],
          'Each traversal is evaluated on abstract terms; loops are generalized over what they carry. The parts of a kind are the fields of its record, '
          'with the fields of nested records and the elements of vectors; each part on each way is an obligation.',
          ['a loop treats every element of an array alike']))
def node_edges():
    import nodes
    return nodes.edges()


add(Check('C06', 'path-sensitive ownership typestate over the syntax tree; abstract evaluation of the functions the collector calls',
          'Every reference that is stored in a type, on every path of the type checker and of the functions on types, is reported to the collector before the path ends; '
          'the function that tells the collector of references names all of those of each kind of type; the function that ends a type releases what it owns, once. '
          'Each step of the collector, on every way through it, moves each type where it is needed by the references found, and frees nothing but what no reference was found to; '
          'that the steps so demanded make a correct collector is not proved here.',
          [Own(['lib/typecheck.c', 'lib/type.c'], rules={'gc-edge'}), node_table('FbleTypeRefs', 'FbleTypeOnFree'), node_edges, table_of('types')],
          'Each store of a reference into a type is an obligation; each field of each kind of type that refers to a type, or is owned by it, is one for the functions the collector calls.', _ASSUME))


add(Check('C21', 'abstract evaluation of the loader on terms; facts established on each way through, against a table of demands',
          'Each way through the functions that look for modules, load them and write dependencies: a file that is found is recorded when a record is asked for, the record is '
          'handed on wherever a module is looked for, nothing else is consulted, what is parsed is what was found, and everything recorded is written. '
          'What a failed load leaves out is not judged.',
          [table_of('loading')],
          'Each function is evaluated on abstract terms; each demand on each way through is an obligation.',
          ['a loop treats every element of an array alike']))

add(Check('C07', 'abstract evaluation of the value heap on terms; facts established on each way through, against a table of demands',
          'Every slot of every kind of value is traced by MarkRefs and moved by GcRealloc, every constructor sets every slot, and the steps of collection, of popping and of compacting a frame move each list '
          'and each returned value where the collector will find it, on every way through each function. That the algorithm so demanded is a correct collector is not proved here; arrays are judged by an arbitrary element.',
          [table_of('values')],
          'the functions of lib/value.c that make, trace, move and collect values'))

import determ
add(Check('C22', 'reachability over the call graph and a search of the typed syntax tree for what varies between runs',
          'In everything the compiler, disassembler, dependency and document tools may run, nothing asks for the time, random numbers, the process, the user, the machine or the order of a directory, '
          'no address of an object is printed, turned into a number or put in order, and no variable keeps a value from one call to the next. '
          'The working directory counts as part of the input; memory read before it is set is C15.',
          [Lint(determ.determinism)],
          'Each reachable function is searched; each use of something that varies between runs is an obligation.', ['indirect calls reach only functions whose address is taken in a reachable function']))

import escape
import extent
import vectors
add(Check('C19', 'sizes of buffers as linear expressions, abstract evaluation of loops over characters by case, and the flow of text of the program to the output',
          'Every copy into, or print to, a buffer is within the size it was given, for all lengths and characters. In the code generators, text of a program reaches the output only through a loop that '
          'writes, for each of the 255 characters, what stands for it between quotes or what is part of an identifier; labels of modules tell apart all names and are the same in both generators. '
          'Sizes that do not follow from what is in view are counted as undecided, not reported.',
          [Lint(lambda tus: extent.analyse(tus, ('text',))), Lint(escape.analyse, escape.GENERATORS)],
          'Each write of text into a buffer is an obligation, as are each character of each loop and each text written out.', ['a loop over the characters of a text treats each by itself']))

add(Check('C29', 'sizes of arrays as linear expressions over what is given, followed along each way through each function',
          'Each array whose size is known where it is indexed or copied to is used within it: arrays allocated or declared in the function or in what it calls in its file, arrays that grow, with what always holds of their counts, '
          'and vectors. An index or a size that does not follow from what is in view is counted as undecided, not reported.',
          [Lint(lambda tus: extent.analyse(tus, ('count',))), Lint(vectors.analyse)],
          'Each index, copy and argument array of known size is an obligation, as is what holds of an array that grows wherever it is handed on.',
          ['a count and its array in a structure agree where a function is entered']))

add(Check('C30', 'abstract evaluation of the compiler on terms; facts established on each way through, against a table of demands',
          'On every way through CompileExpr, for each kind of construct: the instruction made, what each of its operands is, the order parts, instruction and releases come in, where branches lead, and what is returned; '
          'and what the functions that hand out, find and give back places, open and close scopes and append instructions do, on every way. Arrays are judged by an arbitrary element; that the instructions '
          'so made compute what the language means is not judged here.',
          [table_of('lowering')],
          'Each demand of the table on each way through is an obligation.', ['a loop treats every element of an array alike']))

add(Check('C31', 'abstract evaluation of loader and linker on terms; facts established on each way through and round, against a table of demands',
          'On every way through FbleLoad, each round finishes a module all of whose dependencies are loaded, passes over a dependency already loaded, reports one that is being loaded, or starts one that is neither; '
          'what each step does to the stack, the list of modules and the error is demanded. LinkInterpreted and LinkGenerated make one call for each module, whose arguments are the results of the modules its dependencies name, '
          'and return the last result. Path comparison is judged by C17.',
          [table_of('linking')],
          'Each demand of the table on each way through is an obligation.', ['a loop treats every element of an array alike']))

add(Check('C32', 'abstract evaluation of function application on terms; facts established on each way through and round, against a table of demands',
          'On every way through FbleCall, TailCall, FbleTailCall, PartialApply and PartialApplyImpl: which function is run, with which of the arguments, what becomes of those left over, and what is returned when there are fewer. '
          'What the called function leaves behind (the tail call it asks for), where the arguments are after the frame is compacted and after they have been given more room, are told apart from what was there before. '
          'FbleNewFuncValue and FbleNewInterpretedFuncValue keep what a function is made of; FbleEval and FbleApply apply to what they are given.',
          [table_of('application')],
          'Each demand of the table on each way through is an obligation.', ['a loop treats every element of an array alike', 'a function that is run does not write to the array its arguments are in']))

add(Check('C26', 'abstract evaluation of the profiler on terms; facts established on each way through and round, against a table of demands',
          'On every way through the profiler: which counters are advanced and by what, what is put on and taken off the stacks of calls and of samples and the per-caller sets that mirror them, how a pair is searched for and where a new one is put, '
          'that a sample reaches every pair in progress and each block once, how call data are merged when sorted, and what the report prints.',
          [table_of('profiling')],
          'Each demand of the table on each way through is an obligation.', ['a loop treats every element of an array alike', 'the random intervals between samples are not judged', 'arithmetic on floating point numbers is exact']))

def crossings(name):
    import crossing
    return lambda: getattr(crossing, name)()


add(Check('C34', 'abstract evaluation of the conversions between fble values and C on terms, with the order of choices and fields read from the fble sources; facts established on each way through and round, against a table of demands',
          'Integers by sign and by bit in both directions, the table of characters against the type Char@, strings element by element in both directions, each stream function: the byte read or written, when there is nothing, which stream it is of, the value it gives back; '
          'the parts of the io value in the order of Stdio@, the arguments of the program; and that what fgetc gives is not cut short wherever it is used.',
          [table_of('crossing'), crossings('characters'), crossings('narrow')],
          'Each demand of the table on each way through is an obligation; so is each character, and each place a byte is read.',
          ['a loop treats every element of an array alike', 'fopen, fgetc, fputc and getenv do what C says of them', 'the types of the fble sources are written as unions or structs of named members']))

def option_part(name):
    import options
    if name == 'usage':
        return options.usage
    return lambda: __import__('rules').check(options.options())


add(Check('C35', 'abstract evaluation of the argument readers and of the search for packages on terms, against a table of demands; comparison of the options each tool reads with those its usage text lists',
          'On every way through the readers of flags, values and the options of a module: which form is taken, how many arguments go, where the value is put, what is an error, and that nothing changes when the option is another one; where a package is looked for, in which order, and that directories are added at the end. '
          'For each tool: every option of the usage text is read, with a value if it has one, all its forms into one place and no two options into the same.',
          [option_part('options'), option_part('usage')],
          'Each demand of the table on each way through is an obligation; so is each option of each usage text.',
          ['the usage text is written with @opt, @GenericProgramInfo and @ModuleInput', 'pkgs/app is not analysed: its headers are not installed', 'what a tool does with an option once read is not judged here']))

add(Check('C33', 'abstract evaluation of each grammar action and of the lexer on terms; facts established on each way through and round, against a table of demands',
          'bison gives the action of each production; each is made a function of what its symbols stand for and evaluated. On every way through it: the kind of node made, each of its fields being the symbol the construct has there, '
          'its location, and for lists one node or element for each, in order. For the lexer: which characters go into a word, that each character is read once, what is skipped, where a token is, and how lines and columns are counted.',
          [table_of('parsing'), table_of('lexing')],
          'Each demand of the table on each way through is an obligation.', ['bison generates a parser for the grammar', 'a loop treats every element of an array alike', 'productions that are not in the table are not judged']))
