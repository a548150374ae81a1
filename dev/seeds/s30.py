id='S30'; prop='C26'
needs='A block with two of its calls in progress at once (a calls b, b calls a, a calls c), left and entered again while the first call is still in progress.'
breaks='The set of pairs in progress is cleared when one of them ends, so that recursive calls are put on the sample stack again and their time is counted twice.'
edits=[('lib/profile.c','''    thread->sample_set[sample->caller].size--;
''','''    CallDataEV* callees = thread->sample_set + sample->caller;
    while (callees->size > 0 && callees->xs[callees->size - 1]->id <= sample->call->id) {
      callees->size--;
    }
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'F'
#include <stdio.h>
#include <fble/fble-alloc.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
static FbleName N(const char* s) { FbleName n = { .name = FbleNewString(s), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString(__FILE__), .line = 1, .col = 1 } }; return n; }
static unsigned long Time(FbleProfile* p, FbleBlockId a, FbleBlockId b) {
  unsigned long t = 0;
  for (size_t i = 0; i < p->blocks.xs[a]->callees.size; ++i) if (p->blocks.xs[a]->callees.xs[i]->id == b) t += p->blocks.xs[a]->callees.xs[i]->time;
  return t;
}
int main(void) {
  FbleProfile* p = FbleNewProfile(true);
  FbleBlockId a = FbleAddBlockToProfile(p, N("a"));
  FbleBlockId b = FbleAddBlockToProfile(p, N("b"));
  FbleBlockId c = FbleAddBlockToProfile(p, N("c"));
  FbleProfileThread* t = FbleNewProfileThread(p);
  FbleProfileEnterBlock(t, a);
  FbleProfileEnterBlock(t, b);
  FbleProfileEnterBlock(t, a);
  FbleProfileEnterBlock(t, c);
  FbleProfileExitBlock(t);
  FbleProfileEnterBlock(t, b);
  FbleProfileSample(t, 10);
  FbleProfileExitBlock(t);
  FbleProfileExitBlock(t);
  FbleProfileExitBlock(t);
  FbleProfileExitBlock(t);
  unsigned long x = Time(p, a, b), y = Time(p, b, a), z = p->blocks.xs[b]->block.time;
  int bad = x != 10 || y != 10 || z != 10;
  if (bad) printf("%lu %lu %lu\n", x, y, z);
  FbleFreeProfileThread(t);
  FbleFreeProfile(p);
  return bad;
}
F
gcc -w -Iinclude -o $d/t $d/t.c _build/lib/libfble.a -lm || exit 3
$d/t
'''
