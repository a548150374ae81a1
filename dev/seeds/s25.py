id='S25'; prop='C31'
needs='Two directories on the search path that both have the module.'
breaks='The last directory that has a module is used instead of the first.'
edits=[('lib/load.c','''    found = FindAt(search_path->xs[i]->str, path, build_deps);''','''    // Directories given later override those given earlier.
    size_t at = search_path->size - 1 - i;
    found = FindAt(search_path->xs[at]->str, path, build_deps);''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir $d/a $d/b
cat > $d/a/M.fble <<'F'
@ Unit@ = *();
Unit@();
F
echo 'Broken(' > $d/b/M.fble
./_build/test/fble-test -I $d/a -I $d/b -m /M% > $d/out 2>&1
'''
