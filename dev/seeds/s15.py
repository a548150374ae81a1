id='S15'
prop='C19'
needs='Two modules of which one has a name with an underscore that spells the path of the other.'
breaks='Underscores are kept as they are in the labels of modules, so that different modules get the same label.'
edits=[('lib/c.c', "      if (isalnum((unsigned char)*p)) {\n        sprintf(translated, ", "      if (isalnum((unsigned char)*p) || *p == '_') {\n        sprintf(translated, "),
 ('lib/aarch64.c', "      if (isalnum((unsigned char)*p)) {\n        sprintf(translated, ", "      if (isalnum((unsigned char)*p) || *p == '_') {\n        sprintf(translated, ")]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir $d/A
echo '@ Unit@ = *(); Unit@();' > $d/A/B.fble
cp $d/A/B.fble $d/A_2f_B.fble
./_build/bin/fble-compile -t c -c -I $d -m /A/B% > $d/1.c || exit 1
./_build/bin/fble-compile -t c -c -I $d -m /A_2f_B% > $d/2.c || exit 1
gcc -w -Iinclude -I. -c -o $d/1.o $d/1.c || exit 1
gcc -w -Iinclude -I. -c -o $d/2.o $d/2.c || exit 1
ld -r -o $d/both.o $d/1.o $d/2.o
'''
