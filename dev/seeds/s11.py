id='S11'
prop='C13'
needs='Profiling a call of a function that returns without value (an error), for example an undefined access.'
breaks='The profile block entered by a call is not exited if the call fails.'
edits=[('lib/value.c', '  if (profile != NULL) {\n    FbleProfileExitBlock(profile);\n  }', '  if (profile != NULL && result != NULL) {\n    FbleProfileExitBlock(profile);\n  }')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'X'
#include <stdio.h>
#include <fble/fble-value.h>
#include <fble/fble-profile.h>
#include <fble/fble-function.h>
static FbleValue* RunF(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return NULL; }
static FbleExecutable F = { 1, 0, RunF };
static FbleValue* RunG(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  // Calls a function that fails and goes on, as a host may.
  for (int i = 0; i < 3; ++i) FbleCall(h, p, f->statics[0], 1, a);
  FbleCall(h, p, f->statics[1], 1, a);
  return a[0];
}
static FbleExecutable G = { 1, 2, RunG };
static FbleValue* RunI(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return a[0]; }
static FbleExecutable I = { 1, 0, RunI };
int main() {
  FbleProfile* profile = FbleNewProfile(true);
  const char* names[] = { "F", "G", "I" };
  for (int i = 0; i < 3; ++i) {
    FbleName n = { .name = FbleNewString(names[i]), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleNewLoc("x", 1, 1) };
    FbleAddBlockToProfile(profile, n);
  }
  FbleValueHeap* h = FbleNewValueHeap();
  FbleValue* s[2] = { FbleNewFuncValue(h, &F, 1, NULL), FbleNewFuncValue(h, &I, 3, NULL) };
  FbleValue* g = FbleNewFuncValue(h, &G, 2, s);
  FbleValue* u = FbleNewEnumValue(h, 1);
  FbleApply(h, g, 1, &u, profile);
  size_t calls = 0;
  // I is called from G, and from nowhere else.
  for (size_t i = 0; i < profile->blocks.size; ++i) {
    FbleBlockProfile* b = profile->blocks.xs[i];
    for (size_t j = 0; j < b->callees.size; ++j) {
      if (b->callees.xs[j]->id == 3) { calls++; if (i != 2) _exit(1); }
    }
  }
  _exit(calls == 1 ? 0 : 2);
}
X
gcc -w -Iinclude -o $d/t $d/t.c _build/lib/libfble.a || exit 1
$d/t
'''
