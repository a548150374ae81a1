id='S26'; prop='C31'
needs='A program of at least two generated (compiled) modules, run with a profile.'
breaks='Every generated module after the first runs in the profile blocks of the one before it.'
edits=[('lib/link.c','''    size_t profile_block_id = FbleAddBlocksToProfile(profile, module->profile_blocks);
    funcs[i] = FbleNewFuncValue(heap, exe, profile_block_id, NULL);''','''    size_t profile_block_id = main_id + 1;
    for (size_t m = 1; m < i; ++m) {
      profile_block_id += modules.xs[m-1]->profile_blocks.size;
    }
    FbleAddBlocksToProfile(profile, module->profile_blocks);
    funcs[i] = FbleNewFuncValue(heap, exe, profile_block_id, NULL);''')]
demo=r'''
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/A.fble <<'F'
@ Unit@ = *();
Unit@();
F
cat > $d/M.fble <<'F'
@ Unit@ = *();
(Unit@) { Unit@; } Callee = (Unit@ x) { x; };
Unit@ _ = Callee(Unit@());
/A%;
F
B=./_build/bin/fble-compile
$B -t c -c -I $d -m /A% > $d/A.c && $B -t c -c --main FbleTestMain -I $d -m /M% > $d/M.c || exit 3
gcc -w -Iinclude -I. -o $d/m $d/M.c $d/A.c _build/test/libfbletest.a _build/lib/libfble.a || exit 3
$d/m --profile $d/p > $d/out 2>&1 || exit 4
# the function is called once
grep -q '^\*\* *1 .*/M%\.Callee!\[' $d/p
'''
