id='S29'
prop='C33'
needs='Three or more names bound at once with <-, of the same type.'
breaks='Binding several results with <- makes a function of them in the wrong order when there are three or more of them.'
edits=[('lib/parse.y','''        func_value_expr->arg = $1.xs[$1.size - 1 - i];
''','''        func_value_expr->arg = $1.xs[$1.size > 2 ? i : $1.size - 1 - i];
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'F'
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
Bool@ True = Bool@(true: Unit@());
Bool@ False = Bool@(false: Unit@());
((Bool@, Bool@, Bool@) { Unit@; }) { Unit@; } f = ((Bool@, Bool@, Bool@) { Unit@; } k) { k(True, True, False); };
Bool@ a, Bool@ b, Bool@ c <- f;
Unit@ _ = a.true;
Unit@ _ = b.true;
Unit@ _ = c.false;
Unit@();
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
r=$?
cut -c1-200 $d/out | head -3
exit $r
'''
