id='S06'; prop='C17'
needs='A data type declaring the same field twice with another field in between.'
breaks='Only neighbouring fields are compared when looking for duplicates, so *(U@ a, U@ b, U@ a) is accepted.'
edits=[('lib/typecheck.c','''        for (size_t j = 0; j < i; ++j) {
          if (FbleNamesEqual(field->name, data_type->fields.xs[j].name)) {
            ReportError(field->name.loc,
                "duplicate field name '%n'\\n",''','''        for (size_t j = (i == 0) ? 0 : i - 1; j < i; ++j) {
          if (FbleNamesEqual(field->name, data_type->fields.xs[j].name)) {
            ReportError(field->name.loc,
                "duplicate field name '%n'\\n",''')]
demo='''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/M.fble <<'X'
@ Unit@ = *();
@ T@ = *(Unit@ a, Unit@ b, Unit@ a);
Unit@();
X
./_build/bin/fble-compile -t c -c -I $d -m /M% > /dev/null 2> $d/err
s=$?
cat $d/err
[ $s -ne 0 ] && grep -q "duplicate field" $d/err
'''
