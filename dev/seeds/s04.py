id='S04'; prop='C04'
needs='A call with the wrong number of arguments to a user defined command, in a call that nothing else refers to because it was made by @plain.'
breaks='The location for the message is read from the call after it has been released.'
edits=[('fbld/eval.c','''                if (markup->markups.size != e->args.size) {
                  FbldReportError("expected %i arguments to %s, but got %i\\n",
                      markup->text->loc, e->args.size, command, markup->markups.size);
                  error = true;
                  cmd = cmd->next;
                  FreeEnv(c->env);
                  FbldFreeMarkup(c->markup);
                  FbldFree(c);
''','''                if (markup->markups.size != e->args.size) {
                  size_t argc = markup->markups.size;
                  FbldFreeMarkup(c->markup);
                  FbldReportError("expected %i arguments to %s, but got %i\\n",
                      markup->text->loc, e->args.size, e->name->str, argc);
                  error = true;
                  cmd = cmd->next;
                  FreeEnv(c->env);
                  FbldFree(c);
''')]
demo='''
set -u
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
printf '%s\\n' '@define[f][a b][@a@b][@plain[f][text]]' > "$T/in.fbld"
out=$(valgrind -q --error-exitcode=9 ./_build/fbld/fbld "$T/in.fbld" 2>&1)
s=$?
echo "$out"
test $s -eq 9 && exit 1
case "$out" in *"expected 2 arguments to f"*) exit 0;; esac
exit 1
'''
