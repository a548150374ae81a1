id='S35'; prop='C35'
needs='FBLE_PACKAGE_PATH of three or more directories with the package in the third, or a later one.'
breaks='The end of the package path is cut when the directory tried is, so that only the first two are searched.'
edits=[('lib/load.c','''      s = e+1;
    } while (s < end);''','''      s = e+1;
      end = s + n;
    } while (s < end && strchr(s, ':') == NULL);''')]
breaks='A package is only looked for in the first directory of FBLE_PACKAGE_PATH, and in the last if there are two.'
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p $d/a $d/longer-name/b $d/c/pk $d/e
printf '@ Unit@ = *(); Unit@();\n' > $d/c/pk/M.fble
for p in $d/c $d/a:$d/c $d/c:$d/a $d/a:$d/longer-name/b:$d/c $d/longer-name/b:$d/a:$d/e:$d/c $d/a:$d/c:$d/e; do
  FBLE_PACKAGE_PATH=$p timeout 60 ./_build/bin/fble-compile -c -p pk -m /M% > $d/out 2> $d/err || { echo "$p"; cat $d/err; exit 1; }
done
FBLE_PACKAGE_PATH=$d/a:$d/e timeout 60 ./_build/bin/fble-compile -c -p pk -m /M% > $d/out 2> $d/err && exit 1
exit 0
'''
