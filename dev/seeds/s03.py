id='S03'; prop='C03'
needs='Generating a main function with the assembly backend.'
breaks='The label of the module is used after its only reference is released.'
edits=[('lib/aarch64.c','''  Adr(fout, "x2", "%s", module_name->str);
  FbleFreeString(module_name);
''','''  const char* label = module_name->str;
  FbleFreeString(module_name);

  Adr(fout, "x2", "%s", label);
''')]
demo='''
set -u
out=$(valgrind -q --error-exitcode=9 ./_build/bin/fble-compile -t aarch64 --main FbleMyMain -m /Foo% 2>&1)
s=$?
echo "$out" | tail -3
exit $s
'''
