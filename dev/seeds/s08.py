id='S08'; prop='C09'
needs='A value of a recursive let that refers to another one of it, which is not defined yet, used as a struct, union or function.'
breaks='Only one layer of references is looked through, so a reference to an undefined value is itself taken for a struct, union or function.'
edits=[('lib/value.c','''  while (IsAlloced(value) && value->tag == REF_VALUE) {
    RefValue* ref = (RefValue*)value;
    value = ref->value;
  }
''','''  if (IsAlloced(value) && value->tag == REF_VALUE) {
    RefValue* ref = (RefValue*)value;
    value = ref->value;
  }
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'F'
@ Unit@ = *();
@ P@ = *(Unit@ x, Unit@ y);
@ Q@ = *(P@ p, Unit@ u);
(Q@) { Unit@; } f = (Q@ q) { q.p.y; };
P@ a = {
  Q@ c = Q@(x, Unit@()), P@ x = a;
  P@(f(c), Unit@());
};
a;
F
timeout 100 valgrind -q --error-exitcode=120 ./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
s=$?
cat $d/out
[ $s -ne 0 ] && [ $s -lt 100 ] && grep -q "undefined struct value access" $d/out
'''
