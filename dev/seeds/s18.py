id='S18'
prop='C22'
needs='Two runs of the compiler on the same module, compared.'
breaks='The numbers of the labels in generated C start at a number taken from where the module happens to be in memory.'
edits=[('lib/c.c', '  LabelId label_id = 0;\n', '  LabelId label_id = (LabelId)(((size_t)module >> 12) & 0xff);\n')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT

echo '@ Unit@ = *(); Unit@();' > $d/M.fble
for i in 1 2 3 4 5 6 7 8 9 10; do ./_build/bin/fble-compile -t c -c -I $d -m /M% > $d/$i.c || exit 1; done
for i in 2 3 4 5 6 7 8 9 10; do cmp $d/1.c $d/$i.c || exit 1; done
'''
