id='S32'; prop='C34'
needs='A byte 255 in the input.'
breaks='The byte read is kept in a char, so byte 255 is taken for the end of the stream and the rest of the input is lost.'
edits=[('pkgs/core/stdio.fble.c','''  int c = fgetc(file);
  FbleValue* ms;
  if (c == EOF) {
    ms = FbleNewEnumValue(heap, 1);
  } else {
    FbleValue* v = FbleNewIntValue(heap, c);
''','''  char c = fgetc(file);
  FbleValue* ms;
  if (c == EOF) {
    ms = FbleNewEnumValue(heap, 1);
  } else {
    FbleValue* v = FbleNewIntValue(heap, (unsigned char)c);
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
printf 'a\377b\ncd' > $d/in
timeout 60 ./_build/pkgs/core/fble-cat < $d/in > $d/out || exit 3
cmp $d/in $d/out
'''
