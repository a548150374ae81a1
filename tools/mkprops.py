#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})

p('C01', 'Type checking releases everything it acquires exactly once',
  'For every module given to the type checker, well-typed or not, every piece of memory and every type or kind reference acquired while checking it is released exactly once or handed over exactly once to the result. Nothing is used after its last reference has been released, and nothing is released or handed over that the checker does not hold.',
  ['inputs', 'programs'], 'every module, including every combination of type errors that makes checking stop early in the middle of a construct',
  'The suite has one or two programs per error message; the checker has several hundred exits through error paths, each with its own set of things to release, and a leak or an early release is only visible if the failing path is the one executed.',
  ['lib/typecheck.c', 'lib/type.c', 'lib/tc.c', 'lib/kind.c', 'lib/name.c', 'lib/loc.c', 'lib/type-heap.c'],
  [('cleaner list released at the end of a call', 'lib/typecheck.c: Cleanup, CleanType, CleanTc'), ('type retain/release', 'lib/type-heap.c: FbleRetainType, FbleReleaseType'), ('typed expression destructor', 'lib/tc.c: FbleFreeTc')],
  ['leak report of the allocator at process exit', 'use of freed memory'])

p('C02', 'Parsing and loading release everything they acquire exactly once',
  'For every source text, module path and search path, whether or not it parses, resolves or loads, everything acquired while parsing and loading modules is released exactly once or is part of exactly one place in the returned program. Nothing is used after release, and nothing still held elsewhere is released.',
  ['inputs', 'programs', 'fault_sequences'], 'every source text including every kind of malformed text, every module graph including missing, private and circular modules',
  'Each grammar rule has its own semantic action and each search outcome its own exit; the suite exercises most rules once, in accepted texts.',
  ['lib/parse.y', 'lib/load.c', 'lib/module-path.c', 'lib/expr.c', 'lib/unused.c'],
  [('grammar actions and discard rules', 'lib/parse.y'), ('search and load', 'lib/load.c: FbleLoadForExecution, FbleLoadForModuleCompilation'), ('expression destructor', 'lib/expr.c: FbleFreeExpr')],
  ['leak report of the allocator at process exit', 'use of freed memory'])

p('C03', 'Compiling, linking and generating code release what they acquire once',
  'For every type-checked program, everything acquired while it is compiled to instructions, linked, disassembled or turned into C or assembly text is released exactly once or is part of exactly one place in the result. Code, names, locations and profiles handed to a caller stay valid until that caller releases them.',
  ['programs', 'configurations'], 'every program and every choice of backend, profiling on or off',
  'The assembly backend is never executed by the suite here and each instruction kind has its own allocation and release; a sample of programs does not touch each combination.',
  ['lib/compile.c', 'lib/code.c', 'lib/link.c', 'lib/c.c', 'lib/aarch64.c', 'lib/interpret.c'],
  [('instruction and code destructor', 'lib/code.c: FbleFreeInstr, FbleFreeCode'), ('variable and scope bookkeeping', 'lib/compile.c')],
  ['leak report of the allocator at process exit', 'use of freed memory'])

p('C04', 'Document processing releases everything it acquires exactly once',
  'For every document given to the markup processor, well formed or not, with or without evaluation errors at any depth, everything acquired is released exactly once and nothing is used after it is released.',
  ['inputs'], 'every document, every nesting of commands and every position of an evaluation error inside it',
  'Evaluation errors can arise in any argument of any command; the suite has a single failing document for each command at most.',
  ['fbld/eval.c', 'fbld/parse.c', 'fbld/markup.c', 'fbld/alloc.c', 'fbld/vector.c', 'fbld/fbld.c'],
  [('markup reference counts', 'fbld/markup.c: FbldCopyMarkup, FbldFreeMarkup'), ('environment reference counts', 'fbld/eval.c: CopyEnv, FreeEnv'), ('command stack', 'fbld/eval.c: Eval')],
  ['leak report of the allocator at process exit', 'use of freed memory'])

p('C05', 'Tools and drivers release memory, profiles, contexts and files on every exit',
  'For every command line and every input, each command line tool and program driver releases each module path, argument list, program, profile, value context and open file it acquired exactly once before it exits with a status, including when arguments are wrong or a stage fails.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command line, including invalid ones, and every failing stage',
  'Test invocations of the tools are almost all successful; each failing stage leaves through its own exit.',
  ['bin/fble-compile.c', 'bin/fble-deps.c', 'bin/fble-disassemble.c', 'bin/fble-perf-profile.c', 'lib/arg-parse.c', 'lib/profile.c', 'test/test.c', 'test/mem-test.c', 'test/profiles-test.c', 'pkgs/core/stdio.fble.c', 'pkgs/core/int.fble.c', 'pkgs/core/char.fble.c', 'pkgs/core/string.fble.c', 'fbld/fbld.c'],
  [('argument structures and their release', 'lib/arg-parse.c: FbleFreeModuleArg'), ('profile destructor', 'lib/profile.c: FbleFreeProfile')],
  ['leak report of the allocator at process exit'])

json_lines = None
exec(open(__file__.replace('mkprops.py', 'props2.py')).read())
with open(__file__.replace('tools/mkprops.py', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
