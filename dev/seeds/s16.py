id='S16'
prop='C20'
needs='A variable used only in the type of a function argument.'
breaks='The pass that looks for unused variables does not look into the types of function arguments.'
edits=[('lib/unused.c', '      Expr(func_value_expr->arg.type, vars);\n      Vars nvars = {', '      if (func_value_expr->arg.type->tag != FBLE_TYPEOF_EXPR) {\n        Expr(func_value_expr->arg.type, vars);\n      }\n      Vars nvars = {')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'X'
@ Unit@ = *();
Unit@ v = Unit@();
(@<v> x) { x; };
X
./_build/bin/fble-compile -t c -c -I $d -m /M% > /dev/null 2> $d/err || exit 1
cat $d/err
! grep -q "'v' defined but not used" $d/err
'''
