id='S01'; prop='C01'
needs='A struct copy whose argument fails to type check.'
breaks='The partially built struct copy expression is never released.'
edits=[('lib/typecheck.c','''            src.type);
        return TC_FAILED;
      }

      size_t argc = struct_expr->args.size;
      Tc args[argc];
      bool error = false;
      for (size_t i = 0; i < argc; ++i) {
        size_t j = argc - i - 1;
        FbleTaggedExpr* arg = struct_expr->args.xs + j;
''','''            src.type);
        return TC_FAILED;
      }

      FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
      struct_copy->source = FbleCopyTc(src.tc);
      FbleInitVector(struct_copy->fields);

      size_t argc = struct_expr->args.size;
      Tc args[argc];
      bool error = false;
      for (size_t i = 0; i < argc; ++i) {
        size_t j = argc - i - 1;
        FbleTaggedExpr* arg = struct_expr->args.xs + j;
'''),('lib/typecheck.c','''      size_t fieldc = struct_type->fields.size;
      FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
      struct_copy->source = FbleCopyTc(src.tc);
      FbleInitVector(struct_copy->fields);
''','''      size_t fieldc = struct_type->fields.size;
''')]
demo='''
set -u
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
cat > "$T/Foo.fble" <<'X'
@ Unit@ = *();
@ P@ = *(Unit@ x, Unit@ y);
P@ p = P@(Unit@(), Unit@());
p.@(x: nowhere);
X
out=$(./_build/test/fble-test -I "$T" -m /Foo% 2>&1)
echo "$out"
case "$out" in *nowhere*) ;; *) exit 1;; esac
case "$out" in *LEAK*) exit 1;; esac
exit 0
'''
