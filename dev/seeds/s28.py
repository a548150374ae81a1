id='S28'
prop='C33'
needs='A word of more than a thousand characters, of which only the last ones tell it from another.'
breaks='Only the first 1024 characters of a word are kept; names that differ further on become the same name.'
edits=[('lib/parse.y','''    while (IsWordChar(lex->c)) {
      FbleAppendToVector(wordv, lex->c);
      ReadNextChar(lex);
''','''    while (IsWordChar(lex->c)) {
      if (wordv.size < 1024) {
        FbleAppendToVector(wordv, lex->c);
      }
      ReadNextChar(lex);
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
w=$(head -c 1500 /dev/zero | tr '\0' a)
cat > $d/M.fble <<F
@ Unit@ = *();
@ Bool@ = +(Unit@ true, Unit@ false);
Bool@ ${w}x = Bool@(true: Unit@());
Bool@ ${w}y = Bool@(false: Unit@());
Unit@ _ = ${w}x.true;
Unit@ _ = ${w}y.false;
Unit@();
F
./_build/test/fble-test -I $d -m /M% > $d/out 2>&1
r=$?
cut -c1-200 $d/out | head -3
exit $r
'''
