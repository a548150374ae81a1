id='S07'; prop='C08'
needs='An application whose first argument does not type check and whose last one does.'
breaks='Whether an argument failed is overwritten by the next argument, so a failed argument goes on to be used.'
edits=[('lib/typecheck.c','''      Tc misc = TypeCheckExpr(th, scope, apply_expr->misc);
      CleanTc(cleaner, misc);
      bool error = (misc.type == NULL);

      // Type check the args.
      size_t argc = apply_expr->args.size;
      Tc args[argc];
      for (size_t i = 0; i < argc; ++i) {
        args[i] = TypeCheckExpr(th, scope, apply_expr->args.xs[i]);
        CleanTc(cleaner, args[i]);
        error = error || (args[i].type == NULL);
      }
''','''      Tc misc = TypeCheckExpr(th, scope, apply_expr->misc);
      CleanTc(cleaner, misc);
      bool error = (misc.type == NULL);

      // Type check the args.
      size_t argc = apply_expr->args.size;
      Tc args[argc];
      for (size_t i = 0; i < argc; ++i) {
        args[i] = TypeCheckExpr(th, scope, apply_expr->args.xs[i]);
        CleanTc(cleaner, args[i]);
        error = (misc.type == NULL) || (args[i].type == NULL);
      }
''')]
demo='''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'X'
@ Unit@ = *();
@ P@ = *(Unit@ a, Unit@ b);
P@(nosuch, Unit@());
X
./_build/bin/fble-compile -t c -c -I $d -m /M% > /dev/null 2> $d/err
s=$?
head -3 $d/err
[ $s -eq 1 ] && grep -q "nosuch" $d/err
'''
