id='S34'; prop='C34'
needs='A string holding the last character of the table of characters, made from C or read by C.'
breaks='A string longer than 255 characters made from C loses its characters past that.'
edits=[('pkgs/core/string.fble.c','''  size_t length = strlen(str);
  FbleValue* charS = FbleNewEnumValue(heap, 1);
''','''  uint8_t length = strlen(str);
  FbleValue* charS = FbleNewEnumValue(heap, 1);
''')]
needs='A C string longer than 255 characters.'
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'F'
#include <stdio.h>
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-value.h>
#include "pkgs/core/string.fble.h"
int main(void) {
  FbleValueHeap* heap = FbleNewValueHeap();
  int bad = 0;
  for (size_t n = 0; n < 700; n += 7) {
    char s[701];
    for (size_t i = 0; i < n; ++i) s[i] = "abcxyz0 !"[(i * 7 + n) % 9];
    s[n] = 0;
    char* t = FbleStringValueAccess(FbleNewStringValue(heap, s));
    if (strcmp(s, t)) { printf("%zu characters became %zu\n", n, strlen(t)); bad = 1; }
    FbleFree(t);
  }
  FbleFreeValueHeap(heap);
  return bad;
}
F
gcc -w -Iinclude -I. -o $d/t $d/t.c _build/pkgs/core/libfble-core.a _build/lib/libfble.a -lm || exit 3
$d/t
'''
