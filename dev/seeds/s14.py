id='S14'
prop='C16'
needs='A literal with a letter whose tag has a type that differs from those of the others.'
breaks='The message about a letter of another type is given a string of the compiler where the text of the name is needed, so it names no letter.'
edits=[('lib/typecheck.c','elem_data_type->fields.xs[args[argc]].name.name->str, elem','elem_data_type->fields.xs[args[argc]].name.name, elem')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'F'
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
@ Enum@ = +(Unit@ A, Bool@ B, Unit@ C);
@ L@ = +(*(Enum@ head, L@ tail) cons, Unit@ nil);
(L@) { L@; } f = (L@ l) { l; };
f|ABC;
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
s=$?
cat $d/out
[ $s -ge 1 ] && [ $s -lt 100 ] && grep -q "but 'B' has field type Bool@" $d/out
'''
