id='S36'; prop='C35'
needs='A module given twice, under -m and --module.'
breaks='The second module replaces the first without an error.'
edits=[('lib/arg-parse.c','''      if (dest->module_path != NULL) {
        fprintf(stderr, "Error: duplicate module options\\n");
        *error = true;
        return true;
      }

      dest->module_path = FbleParseModulePath(module);
''','''      FbleModulePath* given = dest->module_path;
      if (given != NULL) {
        FbleFreeModulePath(given);
      }

      dest->module_path = FbleParseModulePath(module);
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
printf '@ Unit@ = *(); Unit@();\n' > $d/M.fble
cp $d/M.fble $d/N.fble
timeout 60 ./_build/bin/fble-compile -c -I $d -m /M% > $d/out 2> $d/err || exit 3
timeout 60 ./_build/bin/fble-compile -c -I$d --module /M% > $d/out 2> $d/err || exit 3
timeout 60 ./_build/bin/fble-compile -c -I $d -m /M% --module /N% > $d/out 2> $d/err && exit 1
timeout 60 ./_build/bin/fble-compile -c -I $d -m /M% -m /N% > $d/out 2> $d/err && exit 1
exit 0
'''
