id='S27'
prop='C32'
needs='A partial application of a partial application, that is then given the rest of its arguments.'
breaks='Extending a partial application in place puts the new arguments before the ones it remembers.'
edits=[('lib/value.c','''  FbleValue* statics[1 + argc];
  statics[0] = func;
  memcpy(statics + 1, args, argc * sizeof(FbleValue*));
  return FbleNewFuncValue(heap, &exe, function->profile_block_id, statics);
''','''  size_t given = 0;
  if (function->executable.run == &PartialApplyImpl) {
    // Extend the existing partial application rather than nest another.
    given = function->executable.num_statics - 1;
    func = function->statics[0];
    exe.num_statics += given;
  }

  FbleValue* statics[1 + given + argc];
  statics[0] = func;
  memcpy(statics + 1, args, argc * sizeof(FbleValue*));
  memcpy(statics + 1 + argc, function->statics + 1, given * sizeof(FbleValue*));
  return FbleNewFuncValue(heap, &exe, function->profile_block_id, statics);
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'F'
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
Bool@ True = Bool@(true: Unit@());
Bool@ False = Bool@(false: Unit@());
@ S@ = *(Bool@ a, Bool@ b, Bool@ c);
(Bool@, Bool@, Bool@) { S@; } Mk = (Bool@ x, Bool@ y, Bool@ z) { S@(x, y, z); };
(Bool@, Bool@) { S@; } p = Mk(True);
(Bool@) { S@; } q = p(False);
S@ s = q(True);
Unit@ _ = s.a.true;
Unit@ _ = s.b.false;
Unit@ _ = s.c.true;
Unit@();
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
r=$?
cat $d/out
exit $r
'''
