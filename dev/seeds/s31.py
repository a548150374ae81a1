id='S31'; prop='C26'
needs='Blocks added to the profile after the profile thread was made, more than one of which call something.'
breaks='Only the set of pairs of the first new block starts out empty; the others hold whatever the memory held.'
edits=[('lib/profile.c','''    memset(thread->sample_set + old_size, 0, sizeof(CallDataEV) * (new_size - old_size));
''','''    memset(thread->sample_set + old_size, 0, sizeof(CallDataEV) * (caller + 1 - old_size));
''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'F'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
static FbleName N(const char* s) { FbleName n = { .name = FbleNewString(s), .space = FBLE_NORMAL_NAME_SPACE, .loc = { .source = FbleNewString(__FILE__), .line = 1, .col = 1 } }; return n; }
int main(void) {
  FbleProfile* p = FbleNewProfile(true);
  FbleBlockId a = FbleAddBlockToProfile(p, N("a"));
  FbleProfileThread* t = FbleNewProfileThread(p);
  FbleBlockId first = 0, last = 0;
  for (int i = 0; i < 40; ++i) { last = FbleAddBlockToProfile(p, N("n")); if (!first) first = last; }
  FbleProfileEnterBlock(t, a);
  FbleProfileEnterBlock(t, first);
  FbleProfileEnterBlock(t, last);
  FbleProfileEnterBlock(t, first);
  FbleProfileSample(t, 1);
  for (int i = 0; i < 4; ++i) FbleProfileExitBlock(t);
  FbleFreeProfileThread(t);
  FbleFreeProfile(p);
  return 0;
}
F
gcc -w -Iinclude -o $d/t $d/t.c _build/lib/libfble.a -lm || exit 3
valgrind -q --error-exitcode=9 --leak-check=no $d/t > /dev/null 2>&1
'''
