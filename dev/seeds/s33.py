id='S33'; prop='C34'
needs='An integer of more than 31 bits read back from its fble value.'
breaks='The integer is put together in an int, so that its high bits are lost.'
edits=[('pkgs/core/int.fble.c','''    case 1: return 2 * ReadIntP(FbleUnionValueArg(x));
    case 2: return 2 * ReadIntP(FbleUnionValueArg(x)) + 1;
''','''    case 1:
    case 2: {
      int bit = FbleUnionValueTag(x) - 1;
      int rest = ReadIntP(FbleUnionValueArg(x));
      return 2 * (int64_t)rest + bit;
    }

''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'F'
#include <stdio.h>
#include <fble/fble-value.h>
#include "pkgs/core/int.fble.h"
int main(void) {
  FbleValueHeap* heap = FbleNewValueHeap();
  int bad = 0;
  int64_t xs[] = { 0, 1, -1, 255, 1000, -1000, 2147483647, 2147483648, -2147483649, 4294967297, 1234567890123, -9007199254740993, 9223372036854775807 };
  for (size_t i = 0; i < sizeof(xs) / sizeof(xs[0]); ++i) {
    int64_t y = FbleIntValueAccess(FbleNewIntValue(heap, xs[i]));
    if (y != xs[i]) { printf("%ld became %ld\n", (long)xs[i], (long)y); bad = 1; }
  }
  FbleFreeValueHeap(heap);
  return bad;
}
F
gcc -w -Iinclude -I. -o $d/t $d/t.c _build/pkgs/core/libfble-core.a _build/lib/libfble.a -lm || exit 3
$d/t
'''
