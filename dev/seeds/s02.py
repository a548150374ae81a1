id='S02'; prop='C02'
needs='A package found through --package, after which the search path is released.'
breaks='The search path and the caller both own the one reference to the package directory, which is released twice.'
edits=[('lib/load.c','''  FbleAppendToVector(*path, FbleCopyString(root_dir));
''','''  FbleAppendToVector(*path, root_dir);
''')]
demo='''
set -u
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
mkdir "$T/mypkg"
cat > "$T/mypkg/Foo.fble" <<'X'
@ Unit@ = *();
Unit@();
X
FBLE_PACKAGE_PATH="$T" ./_build/test/fble-test -p mypkg -m /Foo% > "$T/out" 2>&1
s=$?
cat "$T/out"
exit $s
'''
