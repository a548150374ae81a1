id='S13'
prop='C15'
needs='A collection that ends before any frame has been popped or compacted.'
breaks='The list of values saved for the collector is read before it is set.'
edits=[('lib/value.c', '  heap->gc.save.xs = FbleAllocArray(FbleValue*, heap->gc.save.size);\n  heap->gc.save.xs[0] = NULL;\n', '  heap->gc.save.xs = FbleAllocArray(FbleValue*, heap->gc.save.size);\n  heap->gc.save.xs[heap->gc.save.size - 1] = NULL;\n')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'X'
#include <fble/fble-value.h>
int main() {
  FbleValueHeap* h = FbleNewValueHeap();
  FbleValue* v = FbleNewRefValue(h);
  for (int i = 0; i < 3; ++i) v = FbleNewUnionValue(h, 1, v);
  FblePushFrame(h);
  FblePopFrame(h, NULL);
  FbleFreeValueHeap(h);
  return 0;
}
X
gcc -g -w -Iinclude -o $d/t $d/t.c _build/lib/libfble.a || exit 1
valgrind -q --error-exitcode=9 $d/t
'''
