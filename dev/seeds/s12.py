id='S12'
prop='C14'
needs='A program given a profile output file that cannot be opened.'
breaks='fble-stdio runs on without a profile and reports success when the profile file it is given cannot be opened.'
edits=[('pkgs/core/stdio.fble.c', '    if (fprofile == NULL) {\n      fprintf(stderr, "unable to open %s for writing.\\n", profile_file);\n      FbleFreeModuleArg(module_arg);\n      return EX_FAILURE;\n    }\n  }\n', '    if (fprofile == NULL) {\n      fprintf(stderr, "unable to open %s for writing.\\n", profile_file);\n    }\n  }\n')]
demo=r'''
./_build/pkgs/core/fble-stdio --profile /nonexistent/dir/p -I pkgs/core -m /Core/Stdio/HelloWorld% > /dev/null 2>&1
s=$?
./_build/pkgs/core/fble-stdio -I pkgs/core -m /Core/Stdio/HelloWorld% > /dev/null || exit 1
[ $s -ne 0 ]
'''
