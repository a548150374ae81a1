id='S24'
prop='C30'
needs='A struct copied from a value that is not a variable, with three or more fields taken over.'
breaks='The place of the source is used again for the first field taken over, and the remaining fields are taken from what has been put there.'
edits=[('lib/compile.c', '''          args[i] = NewLocal(scope);
          FbleAccessInstr* access''', '''          if (source->refcount == 1 && source->var.tag == FBLE_LOCAL_VAR) {
            // The source is a temporary, we can reuse its place.
            source->refcount++;
            args[i] = source;
          } else {
            args[i] = NewLocal(scope);
          }
          FbleAccessInstr* access''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'F'
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
Bool@ True = Bool@(true: Unit@());
Bool@ False = Bool@(false: Unit@());
@ S@ = *(Bool@ a, Bool@ b, Bool@ c);
(Bool@) { S@; } Mk = (Bool@ x) { S@(x, True, False); };
S@ s = Mk(False).@(a: True);
Unit@ _ = s.a.true;
Unit@ _ = s.b.true;
Unit@ _ = s.c.false;
Unit@();
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
r=$?
cat $d/out
exit $r
'''
