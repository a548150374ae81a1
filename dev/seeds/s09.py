id='S09'; prop='C28'
needs='A definition whose right hand side is an argument of a function, in a module compiled to assembly.'
breaks='The assembly backend reads the value being defined from the local variables whatever kind of variable it is.'
edits=[('lib/aarch64.c','''      FbleVar ref = {
        .tag = FBLE_LOCAL_VAR,
        .index = ref_instr->ref
      };

      fprintf(fout, "  mov x0, R_HEAP\\n");
      GetFrameVar(fout, "x1", ref);
      GetFrameVar(fout, "x2", ref_instr->value);
''','''      FbleVar ref = {
        .tag = FBLE_LOCAL_VAR,
        .index = ref_instr->ref
      };
      FbleVar value = ref;
      value.index = ref_instr->value.index;

      fprintf(fout, "  mov x0, R_HEAP\\n");
      GetFrameVar(fout, "x1", ref);
      GetFrameVar(fout, "x2", value);
''')]
demo='''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'X'
@ Unit@ = *();
@ P@ = *(Unit@ a, Unit@ b);
(Unit@ u) (P@ v) {
  P@ x = v, P@ y = P@(u, x.a);
  y;
};
X
./_build/bin/fble-compile -t aarch64 -c -I $d -m /M% > $d/M.s || exit 1
grep -B6 "bl FbleAssignRefValue" $d/M.s | grep "x[12], \\[" > $d/reads
cat $d/reads
# the first definition takes its value, x2, from the arguments
grep -q "ldr x2, \\[R_ARGS" $d/reads
'''
