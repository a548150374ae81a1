id='S17'
prop='C21'
needs='A module imported from the second or a later directory of the search path.'
breaks='Files found in any but the first directory of the search path are not recorded as dependencies.'
edits=[('lib/load.c', '    found = FindAt(search_path->xs[i]->str, path, build_deps);\n', '    found = FindAt(search_path->xs[i]->str, path, i == 0 ? build_deps : NULL);\n')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir $d/a $d/b
echo '@ U@ = *(); U@();' > $d/b/N.fble
echo '/N%;' > $d/a/M.fble
./_build/bin/fble-deps -t T -I $d/a -I $d/b -m /M% > $d/out
cat $d/out
grep -q "$d/b/N.fble" $d/out
'''
