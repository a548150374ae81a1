id='S23'
prop='C11'
needs='A polymorphic value whose body has an error, next to a use of a type of the name of its argument where there is none.'
breaks='The argument of a polymorphic value stays in scope after an error in its body, so that its name can be used outside of it.'
edits=[('lib/typecheck.c', '      PopLocalVar(th, scope);\n\n      if (body.type == NULL) {\n        return TC_FAILED;\n      }\n', '\n      if (body.type == NULL) {\n        return TC_FAILED;\n      }\n      PopLocalVar(th, scope);\n')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT

cat > $d/M.fble <<'F'
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
Unit@ r = Bool@(true: Unit@()).?(
  true: <@ T@> { undefined; }<Unit@>,
  false: { T@ t = Unit@(); Unit@(); });
r;
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
cat $d/out
grep -q "'undefined' not defined" $d/out && grep -q "'T@' not defined" $d/out
'''
