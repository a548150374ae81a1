p('C06', 'Every reference between types is visible to the type collector',
  'Whenever a type comes to refer to another type, the collector is told of that reference, and when the collector asks a type for its references it is told all of them, for every kind of type. When a type is destroyed, every name, kind, path and vector it owns is released, and none twice.',
  ['programs', 'schedules'], 'every program and every moment at which the collector may run',
  'A missing reference only shows when a collection happens between losing the last other reference and the next use; collections are triggered by allocation counts that small tests never align with.',
  ['lib/type.c', 'lib/type.h', 'lib/type-heap.c', 'lib/typecheck.c'],
  [('reference enumeration', 'lib/type.c: FbleTypeRefs'), ('reference registration', 'lib/type-heap.c: FbleTypeAddRef'), ('destruction', 'lib/type.c: FbleTypeOnFree')],
  ['use of a collected type'])

p('C07', 'Every reference between runtime values is visible to the value collector',
  'For every kind of value, tracing, moving between stack frames and collection reach each value it refers to, so a value reachable from a live value is never collected. Every newly allocated value has all its reference slots set before the collector can see it.',
  ['programs', 'schedules'], 'every program and every interleaving of collector steps with allocation',
  'The collector is incremental and generational; a missed edge shows only for particular ages of both ends at a particular collector step.',
  ['lib/value.c'],
  [('tracing', 'lib/value.c: MarkRefs, MarkRef'), ('moving out of frames', 'lib/value.c: GcRealloc, PopFrame')],
  ['use of a collected value'])

p('C08', 'A program is rejected if and only if an error is reported',
  'Whenever parsing, loading, type checking or document processing rejects its input, at least one diagnostic has been printed for it; and whenever a diagnostic other than a warning is printed, the input is rejected by that stage and the tool does not continue as if it had succeeded.',
  ['inputs', 'programs'], 'every input, every combination of errors',
  'There are hundreds of rejection points; the tests check one representative of each message, not that every path to rejection reports, nor that errors found late in a list still reject.',
  ['lib/typecheck.c', 'lib/load.c', 'lib/parse.y', 'lib/compile.c', 'fbld/eval.c', 'fbld/parse.c', 'lib/module-path.c'],
  [('error reporting', 'lib/typecheck.c: ReportError'), ('failure values', 'lib/typecheck.c: TC_FAILED')],
  ['standard error output and result of each stage'])

p('C09', 'All execution backends stop on undefined values instead of using them',
  'In the interpreter, in generated C and in generated assembly alike, accessing, selecting on or calling a value that is not yet defined, accessing a union with the wrong tag, and defining a value vacuously in terms of itself stop evaluation with the diagnostic for that situation, and an aborted call aborts its caller. No backend continues with a value that could be undefined.',
  ['programs', 'configurations'], 'every program and each of the three backends',
  'The assembly backend cannot run in the test environment, and each instruction has its own check in each backend; a test sees one instruction in one backend.',
  ['lib/interpret.c', 'lib/c.c', 'lib/aarch64.c', 'lib/value.c', 'lib/code.h'],
  [('interpreter dispatch', 'lib/interpret.c'), ('C emitter', 'lib/c.c: EmitCode'), ('assembly emitter', 'lib/aarch64.c: EmitInstr, EmitOutlineCode')],
  ['runtime diagnostics and abort'])

p('C10', 'No type, expression or instruction is used as a kind it is not',
  'Throughout the front end and back end, the contents specific to one kind of type, kind, expression, typed expression, instruction or markup are only accessed where that object is known to be of that kind, for every program.',
  ['inputs', 'programs'], 'every program, in particular ill-typed programs that put an unexpected kind of type or expression in each position',
  'Misuse shows only if a program puts exactly the unexpected kind at that place, and then often reads plausible memory.',
  ['lib/typecheck.c', 'lib/type.c', 'lib/compile.c', 'lib/tc.c', 'lib/expr.c', 'lib/code.c', 'lib/unused.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c', 'lib/type-heap.c'],
  [('tags', 'lib/type.h, lib/expr.h, lib/tc.h, lib/code.h')],
  ['memory misuse'])

p('C11', 'Names are in scope exactly in their own construct',
  'Every variable, type variable and function scope entered while checking or compiling a construct is left again, in reverse order, on every way out of that construct, including after an error in the middle of it. So a name never becomes visible, and never remains visible, outside its construct.',
  ['programs'], 'every nesting of constructs and every error position',
  'Only an error in the middle of a construct followed by a use of the outer scope shows an imbalance.',
  ['lib/typecheck.c', 'lib/compile.c', 'lib/unused.c'],
  [('scopes', 'lib/typecheck.c: PushLocalVar, PopLocalVar, PushLocalTypeVar, PopLocalTypeVar, InitScope, FreeScope'), ('scopes', 'lib/compile.c: PushVar, PopVar')],
  ['resolution of names'])

p('C12', 'Value stack frames are pushed and popped in balance',
  'On every way through the runtime, the executors and the library code written against it, each pushed value stack frame is popped exactly once on return, including when evaluation is aborted. A value made in a frame is not used after that frame is popped unless it is the one returned through the pop. Each function runs in a frame of its own with all of its arguments, which stay in place while it runs, and the arguments beyond those it takes are applied to its result, each once.',
  ['programs', 'histories'], 'every execution, including aborted ones',
  'Imbalance shows after an abort in the middle of particular operations, and as a use of freed stack memory much later.',
  ['lib/value.c', 'lib/interpret.c', 'lib/link.c', 'test/mem-test.c', 'pkgs/core/stdio.fble.c', 'pkgs/core/int.fble.c', 'pkgs/core/string.fble.c', 'pkgs/core/char.fble.c', 'lib/c.c', 'lib/aarch64.c'],
  [('frames', 'lib/value.c: PushFrame, PopFrame, FblePushFrame, FblePopFrame')],
  ['use of freed stack memory'])

p('C13', 'Profiling enters and exits are balanced on every path',
  'In every executor and in instrumented compilation, every profiling block that is entered is exited exactly once on each way out, or replaced by the block of a tail call; profiling never happens when no profile is in use.',
  ['programs', 'configurations'], 'every program, with profiling on and off',
  'The profile tests compare a handful of programs; an imbalance on a rare path distorts the numbers of everything around it without failing.',
  ['lib/interpret.c', 'lib/value.c', 'lib/compile.c', 'lib/c.c', 'lib/aarch64.c', 'lib/profile.c'],
  [('profile operations', 'lib/profile.c: FbleProfileEnterBlock, FbleProfileExitBlock, FbleProfileReplaceBlock'), ('profile instructions', 'lib/compile.c')],
  ['profile output'])

p('C14', 'Command line tools fail with a nonzero status exactly when they fail',
  'Every tool exits with success only if its arguments were valid, every stage succeeded and the requested output was produced; wrong or missing arguments produce a usage error and a failure status. Every argument is consumed, so argument processing always ends.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command line and every failing stage or output file',
  'The suite runs the tools with a few dozen fixed command lines.',
  ['bin/fble-compile.c', 'bin/fble-deps.c', 'bin/fble-disassemble.c', 'bin/fble-perf-profile.c', 'test/test.c', 'test/mem-test.c', 'test/profiles-test.c', 'pkgs/core/stdio.fble.c', 'fbld/fbld.c', 'lib/arg-parse.c'],
  [('argument loop', 'lib/arg-parse.c: FbleParseModuleArg, FbleParseInvalidArg'), ('main functions', 'bin/*.c')],
  ['exit status'])

p('C15', 'No memory is read before it is set',
  'Every object the program builds has each field set before it is read, stored where others can see it, or returned, and every local value is set before it is read, on every path.',
  ['inputs', 'programs'], 'every input and path',
  'Uninitialised memory usually reads as a plausible value in short test runs.',
  ['lib/*.c', 'lib/parse.y', 'fbld/*.c', 'bin/*.c', 'test/*.c', 'pkgs/core/*.c'],
  [('allocation does not clear memory', 'lib/alloc.c: FbleAllocRaw')],
  ['reads of uninitialised memory'])

p('C16', 'Every diagnostic is given arguments of the kinds its message text names',
  'For every diagnostic and every piece of formatted output, each directive of the format text receives an argument of the corresponding kind, and their numbers agree, so that printing a diagnostic never misreads its arguments.',
  ['inputs', 'programs'], 'every diagnostic reachable by some input',
  'The custom format directives are invisible to the compiler; a mismatch shows only for the input that triggers that one message.',
  ['lib/typecheck.c', 'lib/load.c', 'lib/loc.c', 'lib/unused.c', 'fbld/*.c', 'lib/*.c'],
  [('custom formatter', 'lib/typecheck.c: ReportError, ReportWarning'), ('location printing', 'lib/loc.c: FbleReportError, FbleReportWarning')],
  ['text of diagnostics'])

p('C17', 'Every accepted program has passed the type rules of each construct in it',
  'A construct is only accepted after the checks its typing rule demands: the parts have been checked, and wherever a type, kind, tag, field name or number of arguments has to agree with another, the comparison has been made and its negative outcome leads to rejection. In particular duplicate names, missing or extra fields, tags and branches, unequal types and unequal kinds are always rejected.',
  ['programs'], 'every ill-typed program',
  'Ill-typed programs are unbounded; each test rejects one program for one reason, in the first position it can occur.',
  ['lib/typecheck.c', 'lib/type.c', 'lib/kind.c'],
  [('type equality', 'lib/type.c: FbleTypesEqual'), ('kind equality', 'lib/kind.c: FbleKindsEqual'), ('rules', 'lib/typecheck.c: TypeCheckExpr, TypeCheckType')],
  ['acceptance of ill-typed programs'])

p('C18', 'Results that may be absent are checked before they are used',
  'Wherever an operation may yield nothing because of an error, an unresolved name, a missing file or an undefined value, its result is checked before it is used, for every input.',
  ['inputs', 'programs', 'fault_sequences'], 'every input for which an operation can fail',
  'Each failing operation needs its own failing input at each place it is used.',
  ['lib/*.c', 'lib/parse.y', 'fbld/*.c', 'bin/*.c', 'test/*.c', 'pkgs/core/*.c'],
  [('failure values', 'null results of lookups, evaluation and loading')],
  ['crash'])

p('C19', 'Text taken from a program cannot break the text generated from it',
  'Whatever characters and lengths names, module paths and file names have, text formed from them stays inside the buffer that holds it, and they are escaped where they are placed inside string literals or identifiers of generated C and assembly.',
  ['inputs', 'programs'], 'every name, module path and file name allowed by the language',
  'Only unusual names show it; the suite uses plain ASCII names.',
  ['lib/c.c', 'lib/aarch64.c', 'fbld/markup.c', 'bin/fble-perf-profile.c'],
  [('name mangling', 'lib/c.c: SanitizeString, lib/aarch64.c: SanitizeString'), ('string literals', 'lib/c.c: StringLit')],
  ['memory misuse and malformed output'])

p('C20', 'Every kind of node is handled completely by every traversal',
  'Each traversal over expressions, typed expressions, types, instructions and markup treats every kind of node and every child of that kind exactly once, so that no part of a program is skipped or handled twice when it is freed, checked, rewritten, compiled, printed or searched.',
  ['programs'], 'every program, every kind of node',
  'A traversal that misses one child of one kind only matters when something interesting is below that child.',
  ['lib/expr.c', 'lib/tc.c', 'lib/type.c', 'lib/code.c', 'lib/unused.c', 'lib/compile.c', 'lib/typecheck.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c'],
  [('traversals', 'switch statements over tags')],
  ['skipped checks, leaked parts, unhandled instructions'])

p('C21', 'Every file consulted while loading is recorded as a build dependency',
  'Whenever loading a program finds or opens a source file to decide what a module is, that file is recorded in the dependency list when one was requested, so that a build system rebuilds the output whenever any file it depends on changes.',
  ['programs', 'configurations'], 'every module graph and search path',
  'A missing dependency never fails a clean build.',
  ['lib/load.c', 'lib/parse.y', 'bin/fble-deps.c', 'bin/fble-compile.c'],
  [('dependency recording', 'lib/load.c: Find'), ('dependency output', 'lib/load.c: FbleSaveBuildDeps')],
  ['dependency file'])

p('C22', 'Compiler output depends only on its input',
  'The output of the compiler, disassembler and dependency tools is a function of the sources, search path and options: it does not depend on memory addresses, time, randomness, or on the order in which unrelated things happen to be laid out in memory.',
  ['programs', 'schedules', 'configurations'], 'every program, repeated runs',
  'Output is compared with nothing in the suite; nondeterminism shows across runs and machines.',
  ['lib/c.c', 'lib/aarch64.c', 'lib/compile.c', 'lib/load.c', 'lib/code.c', 'bin/*.c'],
  [('emitters', 'lib/c.c, lib/aarch64.c')],
  ['generated files'])

p('C23', 'Tail calls and deep recursion do not exhaust the machine stack',
  'A call in tail position always reuses its caller\'s frame in every backend, so loops written as tail recursion run in constant space however long they run: the compiler emits a tail call for it, each backend hands it to the runtime and returns, and the runtime makes it in a loop. Evaluation starts with as much machine stack as may be had.',
  ['programs', 'configurations'], 'every program with calls in tail position',
  'Only a long run in each backend would show it.',
  ['lib/compile.c', 'lib/interpret.c', 'lib/value.c', 'lib/c.c', 'lib/aarch64.c'],
  [('tail position', 'lib/compile.c: CompileExpr, CompileExit'), ('tail call instruction', 'lib/value.c: FbleCall')],
  ['memory use'])

p('C24', 'Evaluation computes the value the language semantics defines',
  'For every well-typed program, evaluation in each backend yields the value defined by the language specification.',
  ['programs', 'configurations'], 'every well-typed program',
  'The specification tests sample programs.',
  ['lib/compile.c', 'lib/interpret.c', 'lib/value.c', 'lib/c.c', 'lib/aarch64.c'], [('compilation', 'lib/compile.c')], ['results'])

p('C25', 'Memory use of a program is bounded by its live data',
  'Values that can no longer be reached are eventually collected, so that a long running program with bounded live data uses bounded memory.',
  ['programs', 'histories', 'schedules'], 'every long running program',
  'The memory tests compare two sizes of a few programs.',
  ['lib/value.c'], [('incremental collection', 'lib/value.c: IncrGc')], ['peak memory'])

p('C26', 'Profiles count each call once and charge time to the calls in progress',
  'For every sequence of entering, replacing and leaving blocks and of samples: each entry adds one to the count of the block and one to that of its caller-callee pair; a sample adds its time to the self time of the innermost block, and once to each block and each pair in progress, however deep the recursion and whatever tail calls replaced; leaving a block takes off exactly the pairs it and the blocks it replaced put on; a report lists every block and pair with these numbers, from both sides, in the order its sections promise.',
  ['programs', 'histories'], 'every sequence of calls, tail calls, returns and samples, with blocks added to the profile at any time',
  'The profile tests use fixed call sequences; bookkeeping that drifts only under recursion through tail calls, new blocks or deep stacks stays hidden.',
  ['lib/profile.c'], [('bookkeeping', 'lib/profile.c: EnterBlock, FbleProfileExitBlock, FbleProfileSample, GetCallData, CallStackPush, CallStackPop'), ('report', 'lib/profile.c: FbleGenerateProfileReport, MergeSortCallData, PrintCallData')], ['profile output'])

p('C27', 'The standard library packages compute correct results',
  'For every input the library packages for numbers, strings, hashing, drawing and games compute what their documentation states.',
  ['inputs'], 'every input',
  'Library tests sample inputs.',
  ['pkgs/'], [('fble sources', 'pkgs/*/*.fble')], ['results'])

p('C28', 'Interpreted, C and assembly modules do the same thing for every instruction',
  'Interpreted, compiled through C, or compiled through assembly, each instruction of a module performs the same runtime operations on the same operands, stores its result in the same place and goes on the same way, and the generated code describes its module (path, dependencies, arguments, profiling blocks, entry function) as it is, so that a program behaves the same in any mixture of backends. Generated assembly gives its caller back its stack and registers and stays within its own frame.',
  ['programs', 'configurations'], 'every program and every mixture of backends',
  'The suite runs a fixed set of programs in two backends.',
  ['lib/link.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c'], [('linking', 'lib/link.c')], ['results'])

p('C29', 'Arrays are used within their bounds',
  'However many arguments, statics, fields, names, blocks, branches, samples or characters there are, every array is made as large as the number of elements put into it or read from it, and grows before it is full: no operation reads or writes outside the array it was given.',
  ['inputs', 'programs'], 'every program, every count',
  'A buffer one element short is used only by the one count that fills it, and an allocator that rounds sizes up hides it.',
  ['lib/*.c', 'fbld/*.c', 'bin/*.c', 'pkgs/core/*.c'],
  [('vectors', 'lib/vector.c: FbleExtendVectorRaw'), ('argument arrays', 'lib/value.c: TailCall, FbleCall, PartialApply'), ('samples', 'lib/profile.c: EnterBlock'), ('lexers', 'fbld/parse.c: NextFetched')],
  ['memory misuse'])

p('C30', 'Each construct is compiled to the instructions for it',
  'For every construct of an accepted program the compiler emits one instruction of the right kind, whose operands are the results of compiling the parts of the construct, each in its own place and in order; field tags, branch numbers and source locations are those of the construct. Every branch leads to the code made for it, and all branches go on after the last. A variable names the same value after nested functions and applications have been merged, no place on the frame is given to two values that are needed at the same time, what is compiled last is returned, and each module of a program is compiled from its own code with its own dependencies. The profiling operations made for an instruction are those of the place in the program it was made for.',
  ['programs'], 'every program: any nesting, any number of arguments, fields, bindings and branches',
  'The suite compiles a fixed set of programs; which places are shared and which functions merged depends on how constructs are nested.',
  ['lib/compile.c'],
  [('constructs', 'lib/compile.c: CompileExpr'), ('places on the frame', 'lib/compile.c: NewLocal, ReleaseLocal, PushVar, SetVar, GetVar'), ('merging functions', 'lib/compile.c: RewriteVar'), ('modules', 'lib/compile.c: CompileModule, FbleCompileProgram')],
  ['results', 'error locations'])

p('C31', 'Each module is loaded once, after what it depends on, and is given exactly that',
  'Loading a program loads every module the main module reaches, each exactly once however many modules refer to it, and each after every module it depends on. A module that depends on itself, however indirectly, that is not found on the search path, or that does not parse makes the load fail with an error naming it. The first directory of the search path that has the module is the one used. Linking gives the function of each module the values of exactly the modules it depends on, in order, runs each once, and the value of the program is that of its main module; source modules and generated modules alike.',
  ['programs'], 'every program: any graph of modules, any search path',
  'The suite has a few small module graphs; shared, deep and cyclic dependencies come in unboundedly many shapes.',
  ['lib/load.c', 'lib/link.c'],
  [('loading', 'lib/load.c: FbleLoad'), ('search path', 'lib/load.c: Find'), ('linking source modules', 'lib/link.c: LinkInterpreted'), ('linking generated modules', 'lib/link.c: LinkGenerated, LoadGenerated')],
  ['results', 'diagnostics'])
p('C32', 'A function is applied the same however its arguments are divided up',
  'Applying a function to some arguments and the result to others gives what applying it to all of them at once gives. A function given fewer arguments than it takes becomes a function of the remaining ones, which remembers those it was given, in order, and runs nothing; one given more runs with the first ones and its result is applied to the rest, in order; the same in a tail call, through any number of tail calls in between, and whether the function is interpreted, compiled, or itself partially applied. Applying an undefined function is reported as an error. No argument is lost, doubled or reordered.',
  ['programs'], 'every function, any number of arguments, any division of them, any chain of tail calls',
  'The suite applies functions of a few arguments in a few ways; arities, left over arguments and chains of tail calls combine without bound.',
  ['lib/value.c', 'lib/interpret.c'],
  [('application', 'lib/value.c: FbleCall'), ('tail calls', 'lib/value.c: TailCall, FbleTailCall, EnsureTailCallArgsSpace'), ('partial application', 'lib/value.c: PartialApply, PartialApplyImpl'), ('functions', 'lib/value.c: FbleNewFuncValue; lib/interpret.c: FbleNewInterpretedFuncValue')],
  ['results', 'diagnostics'])
p('C33', 'Each construct is parsed to the node for it, its parts in the order written',
  'Every construct of the language becomes the one kind of node the language specification gives it, whose parts are the parts written, each in its own place, and whose location is where the construct begins. Several arguments, parameters, kinds, fields, choices or bindings are kept in the order written, none lost or doubled, so f(x, y) applies to x first and (A@ x, B@ y) { } is a function of x whose result is a function of y. A statement after a union select without a default becomes its default, and after anything else is reported. Each module path mentioned is listed once among the dependencies. The text is divided into words, quoted words, punctuation, blanks and comments without losing, adding or reordering characters, and each token has the line and column of its first character.',
  ['programs'], 'every program text that the grammar accepts, of any length',
  'The suite parses small programs; lists of any length, quoting, and every combination of constructs are sampled.',
  ['lib/parse.y'],
  [('actions', 'lib/parse.y: every production'), ('tokens', 'lib/parse.y: yylex, ReadNextChar')],
  ['results', 'diagnostics'])

p('C34', 'Integers, characters, strings and streams cross between fble and C as they are',
  'An integer, character or string a C program makes into an fble value, or reads from one, is the same on the other side: every integer by sign and bits, every character the type Char@ has as that one and any other as the one stated for it, every string element by element to its end, the empty one too. A program run with stdio gets its arguments in order; reading a stream gives every byte of it, 0 to 255, and then nothing; writing puts each byte out at once; open and getenv give just what they find or nothing; each function acts on its own stream, which stays open as long as it can be reached and is closed once.',
  ['inputs', 'programs'], 'every integer, character, string, stream content and sequence of operations',
  'The stdio tests use a few short texts; a byte taken for the end of the file, or a bit lost at one place, shows on other inputs only.',
  ['pkgs/core/int.fble.c', 'pkgs/core/char.fble.c', 'pkgs/core/string.fble.c', 'pkgs/core/stdio.fble.c'], [('conversions', 'pkgs/core/int.fble.c: MakeIntP, ReadIntP, FbleNewIntValue, FbleIntValueAccess; pkgs/core/char.fble.c; pkgs/core/string.fble.c'), ('streams', 'pkgs/core/stdio.fble.c: IStreamImpl, OStreamImpl, ReadImpl, WriteImpl, GetEnvImpl, FbleNewStdioIO, FbleStdio')], ['values', 'output'])

p('C35', 'Options are read as the usage says, and packages are found where they should be',
  'For every command line: each option a tool lists in its usage is accepted in each of its forms and means the same in all of them, takes its value and no more, in any order; a missing or repeated value, an invalid module path, an unknown package and an argument that is not an option where none may be are errors; nothing is consumed or changed by an option that is not there. Module directories are searched in the order given; a package is found in the first directory of FBLE_PACKAGE_PATH that has it, whatever their number and length, and then in the default one.',
  ['inputs', 'configurations'], 'every command line and environment',
  'The tests use the same few command lines; a form, an order or an environment nobody tried goes wrong unseen.',
  ['lib/arg-parse.c', 'lib/load.c', 'bin/', 'pkgs/core/stdio.fble.c'], [('readers', 'lib/arg-parse.c: FbleParseBoolArg, FbleParseStringArg, FbleParseModuleArg, FbleParseInvalidArg'), ('packages', 'lib/load.c: FbleFindPackage, FindPackageAt, FbleAppendToSearchPath, FbleAppendStringToSearchPath'), ('tools', 'bin/*.c: main; pkgs/core/stdio.fble.c: FbleStdioMain')], ['results', 'exit status'])
