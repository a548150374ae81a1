id='S05'; prop='C05'
needs='The --module option given twice.'
breaks='The first module path is released when the duplicate is reported and again with the module argument.'
edits=[('lib/arg-parse.c','''      if (dest->module_path != NULL) {
        fprintf(stderr, "Error: duplicate module options\\n");
''','''      if (dest->module_path != NULL) {
        FbleFreeModulePath(dest->module_path);
        fprintf(stderr, "Error: duplicate module options\\n");
''')]
demo='''
set -u
out=$(valgrind -q --error-exitcode=99 ./_build/bin/fble-compile -c -t c -m /Foo% -m /Bar% 2>&1)
s=$?
echo "$out" $s
test $s -ne 99 || exit 1
case "$out" in *duplicate*) exit 0;; esac
exit 1
'''
