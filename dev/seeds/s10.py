id='S10'; prop='C12'
needs='A tail call that gives a function only some of its arguments.'
breaks='When a tail call gives a function only some of its arguments, the frame of the tail call is left on the stack.'
edits=[('lib/value.c','      return FblePopFrame(heap, partial);','      return partial;')]
demo='''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/t.c <<'X'
#include <stdio.h>
#include <fble/fble-value.h>
#include <fble/fble-profile.h>
#include <fble/fble-function.h>
static int freed = 0;
static void OnFree(void* d) { freed++; }
// t is (a b) -> tail call f(a), where f takes two arguments.
static FbleValue* RunG(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return a[0]; }
static FbleExecutable G = { 1, 0, RunG };
static FbleValue* RunF(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return FbleNewFuncValue(h, &G, 0, NULL); }
static FbleExecutable F = { 2, 0, RunF };
static FbleValue* RunT(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  return FbleTailCall(h, FbleFuncValueFunction(f->statics[0]), f->statics[0], 1, a);
}
static FbleExecutable T = { 2, 1, RunT };
int main() {
  FbleProfile* profile = FbleNewProfile(false);
  FbleName n = { .name = FbleNewString("x"), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleNewLoc("x", 1, 1) };
  FbleAddBlockToProfile(profile, n);
  FbleValueHeap* h = FbleNewValueHeap();
  FblePushFrame(h);
  FbleValue* f = FbleNewFuncValue(h, &F, 0, NULL);
  FbleValue* t = FbleNewFuncValue(h, &T, 0, &f);
  FbleValue* u = FbleNewEnumValue(h, 1);
  // What a frame holds is let go once the frame is popped.
  FbleValue* args[2] = { u, u };
  FblePushFrame(h);
  FbleNewNativeValue(h, &h, OnFree);
  FbleValue* r = FbleApply(h, t, 2, args, profile);
  r = FblePopFrame(h, r);
  if (FbleFuncValueFunction(r)->executable.num_args != 1) return 3;
  for (int i = 0; i < 100; ++i) {
    FblePushFrame(h);
    FblePopFrame(h, FbleNewNativeValue(h, NULL, NULL));
  }
  _exit(freed == 1 ? 0 : 4);
}
X
gcc -w -Iinclude -o $d/t $d/t.c _build/lib/libfble.a || exit 1
$d/t
'''
