id='S20'
prop='C28'
needs='Access to a field of a union type with more than eight fields, in a module compiled to C.'
breaks='The C generator writes the number of the field of a union access in octal.'
edits=[('lib/c.c', 'FbleUnionValueField(%s[%zi], %zi', 'FbleUnionValueField(%s[%zi], %zo')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT

cat > $d/M.fble <<'F'
@ Unit@ = *();
@ U@ = +(Unit@ a, Unit@ b, Unit@ c, Unit@ d, Unit@ e, Unit@ f, Unit@ g, Unit@ h, Unit@ i, Unit@ j);
(U@) { Unit@; } f = (U@ u) { u.j; };
f(U@(j: Unit@()));
F
./_build/test/fble-test -I $d -m /M% || exit 1
./_build/bin/fble-compile -t c -c --main FbleTestMain -I $d -m /M% > $d/M.c || exit 1
gcc -w -Iinclude -I. -o $d/M $d/M.c _build/test/libfbletest.a _build/lib/libfble.a || exit 1
$d/M
'''
