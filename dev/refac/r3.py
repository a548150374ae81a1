A='lib/aarch64.c'; L='lib/load.c'; F='bin/fble-compile.c'; E='fbld/eval.c'
R={}
R['asm']=[(A,'''      // Allocate space for the arguments array on the stack.
      size_t sp_offset = StackBytesForCount(argc);
      fprintf(fout, "  sub SP, SP, %zi\\n", sp_offset);
      for (size_t i = 0; i < argc; ++i) {
        GetFrameVar(fout, "x0", struct_instr->args.xs[i]);
        fprintf(fout, "  str x0, [SP, #%zi]\\n", sizeof(FbleValue*) * i);
      };

      fprintf(fout, "  mov x0, R_HEAP\\n");
      fprintf(fout, "  mov x1, %zi\\n", argc);
      fprintf(fout, "  mov x2, SP\\n");
''','''      // Allocate space for the arguments array on the stack.
      size_t sp_offset = PushFrameVars(fout, struct_instr->args);

      fprintf(fout, "  mov x2, SP\\n");
      fprintf(fout, "  mov x1, %zi\\n", argc);
      fprintf(fout, "  mov x0, R_HEAP\\n");
'''),
(A,'''static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size_t pc, FbleInstr* instr)
{''','''static size_t PushFrameVars(FILE* fout, FbleVarV vars)
{
  size_t sp_offset = StackBytesForCount(vars.size);
  fprintf(fout, "  sub SP, SP, %zi\\n", sp_offset);
  for (size_t i = 0; i < vars.size; ++i) {
    GetFrameVar(fout, "x0", vars.xs[i]);
    fprintf(fout, "  str x0, [SP, #%zi]\\n", sizeof(FbleValue*) * i);
  }
  return sp_offset;
}

static void EmitLocInfo(FILE* fout, FbleDebugInfo* info)
{
  while (info != NULL) {
    if (info->tag == FBLE_STATEMENT_DEBUG_INFO) {
      FbleLoc loc = ((FbleStatementDebugInfo*)info)->loc;
      fprintf(fout, "  .loc 1 %zi %zi\\n", loc.line, loc.col);
    }
    info = info->next;
  }
}

static void EmitUnionValue(FILE* fout, FbleUnionValueInstr* instr)
{
  GetFrameVar(fout, "x2", instr->arg);
  fprintf(fout, "  mov x1, %zi\\n", instr->tag);
  fprintf(fout, "  mov x0, R_HEAP\\n");
  fprintf(fout, "  bl FbleNewUnionValue\\n");
  SetFrameVar(fout, "x0", instr->dest);
}

static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size_t pc, FbleInstr* instr)
{'''),
(A,'''  for (FbleDebugInfo* info = instr->debug_info; info != NULL; info = info->next) {
    if (info->tag == FBLE_STATEMENT_DEBUG_INFO) {
      FbleStatementDebugInfo* stmt = (FbleStatementDebugInfo*)info;
      fprintf(fout, "  .loc 1 %zi %zi\\n", stmt->loc.line, stmt->loc.col);
    }
  }
''','''  EmitLocInfo(fout, instr->debug_info);
'''),
(A,'''      FbleUnionValueInstr* union_instr = (FbleUnionValueInstr*)instr;
      fprintf(fout, "  mov x0, R_HEAP\\n");
      fprintf(fout, "  mov x1, %zi\\n", union_instr->tag);
      GetFrameVar(fout, "x2", union_instr->arg);
      fprintf(fout, "  bl FbleNewUnionValue\\n");
      SetFrameVar(fout, "x0", union_instr->dest);
      return;
''','''      EmitUnionValue(fout, (FbleUnionValueInstr*)instr);
      return;
'''),
(A,'''      fprintf(fout, "  bl FbleStructValueField\\n");
      SetFrameVar(fout, "x0", access_instr->dest);
      fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\\n", func_id, pc);
      return;''','''      fprintf(fout, "  bl FbleStructValueField\\n"
                    "  cbz x0, .Lo.%04zx.%zi.u\\n", func_id, pc);
      SetFrameVar(fout, "x0", access_instr->dest);
      return;'''),
]
R['load']=[(L,'''    // Check to see if we have already loaded this path.
    bool found = false;
    for (size_t i = 0; i < program->modules.size; ++i) {
      if (FbleModulePathsEqual(ref, program->modules.xs[i].path)) {
        stack->deps_loaded++;
        found = true;
        break;
      }
    }
    if (found) {
      continue;
    }

    bool recursive = false;
    for (Stack* s = stack; s != NULL; s = s->tail) {
      if (FbleModulePathsEqual(ref, s->module.path)) {
        FbleReportError("module ", ref->loc);
        FblePrintModulePath(stderr, ref);
        fprintf(stderr, " recursively depends on itself\\n");
        error = true;
        recursive = true;
        stack->deps_loaded = stack->module.deps.size;
        break;
      }
    }

    if (recursive) {
      continue;
    }
''','''    // Check to see if we have already loaded this path.
    if (IsLoaded(program, ref)) {
      stack->deps_loaded++;
      continue;
    }

    if (IsRecursive(stack, ref)) {
      error = true;
      stack->deps_loaded = stack->module.deps.size;
      continue;
    }
'''),
(L,'''// See documentation in fble-load.h.
FbleLoadedProgram* FbleLoad(''','''static bool IsLoaded(FbleLoadedProgram* program, FbleModulePath* path)
{
  for (size_t i = 0; i < program->modules.size; ++i) {
    if (FbleModulePathsEqual(path, program->modules.xs[i].path)) {
      return true;
    }
  }
  return false;
}

static bool IsRecursive(Stack* stack, FbleModulePath* path)
{
  Stack* s = stack;
  while (s != NULL && !FbleModulePathsEqual(path, s->module.path)) {
    s = s->tail;
  }

  if (s == NULL) {
    return false;
  }

  FbleReportError("module ", path->loc);
  FblePrintModulePath(stderr, path);
  fprintf(stderr, " recursively depends on itself\\n");
  return true;
}

static void FreeModule(FbleLoadedModule* module)
{
  FbleFreeExpr(module->type);
  FbleFreeExpr(module->value);
  FbleFreeModulePath(module->path);
  for (FbleModulePath** dep = module->deps.xs; dep < module->deps.xs + module->deps.size; dep++) {
    FbleFreeModulePath(*dep);
  }
  FbleFreeVector(module->deps);
}

// See documentation in fble-load.h.
FbleLoadedProgram* FbleLoad('''),
(L,'''      FbleLoadedModule* module = program->modules.xs + i;
      FbleFreeModulePath(module->path);
      for (size_t j = 0; j < module->deps.size; ++j) {
        FbleFreeModulePath(module->deps.xs[j]);
      }
      FbleFreeVector(module->deps);
      FbleFreeExpr(module->type);
      FbleFreeExpr(module->value);
''','''      FreeModule(program->modules.xs + i);
'''),
(L,'''  FbleString* found = NULL;
  for (size_t i = 0; !found && i < search_path->size; ++i) {
    found = FindAt(search_path->xs[i]->str, path, build_deps);
  }

  if (found == NULL) {
    FbleReportError("module ", path->loc);
    FblePrintModulePath(stderr, path);
    fprintf(stderr, " not found\\n");
    return NULL;
  }
  return found;''','''  for (size_t i = 0; i < search_path->size; ++i) {
    FbleString* found = FindAt(search_path->xs[i]->str, path, build_deps);
    if (found != NULL) {
      return found;
    }
  }

  FbleReportError("module ", path->loc);
  FblePrintModulePath(stderr, path);
  fprintf(stderr, " not found\\n");
  return NULL;'''),
(L,'''  FbleString* found = FbleNewString(filename);
  if (build_deps) {
    FbleAppendToVector(*build_deps, FbleCopyString(found));
  }

  return found;''','''  FbleString* found = FbleNewString(filename);
  if (build_deps == NULL) {
    return found;
  }

  FbleAppendToVector(*build_deps, FbleCopyString(found));
  return found;'''),
]
R['tool']=[(F,'''  Target target;
  if (target_string == NULL) {
    target = TARGET_AARCH64;
  } else if (strcmp(target_string, "aarch64") == 0) {
    target = TARGET_AARCH64;
  } else if (strcmp(target_string, "c") == 0) {
    target = TARGET_C;
  } else {
    fprintf''','''  Target target;
  if (!ParseTarget(target_string, &target)) {
    fprintf'''),
(F,'''  if (compile) {
    FbleLoadedProgram* prgm = FbleLoad(module_arg.search_path, module_arg.module_path, NULL);
    if (prgm == NULL) {
      FbleFreeModuleArg(module_arg);
      return EX_FAIL;
    }

    FbleCompiledModule* module = FbleCompileModule(prgm);
    FbleFreeLoadedProgram(prgm);

    if (module == NULL) {
      FbleFreeModuleArg(module_arg);
      return EX_FAIL;
    }

    FbleFreeModulePath(module->path);
    module->path = FbleCopyModulePath(module_arg.module_path);

    switch (target) {
      case TARGET_AARCH64: FbleGenerateAArch64(stdout, module); break;
      case TARGET_C: FbleGenerateC(stdout, module); break;
    }

    FbleFreeCompiledModule(module);
  }

  FbleFreeModuleArg(module_arg);
  return EX_SUCCESS;''','''  int status = EX_SUCCESS;
  if (compile && !CompileTo(target, &module_arg)) {
    status = EX_FAIL;
  }

  FbleFreeModuleArg(module_arg);
  return status;'''),
(F,'''int main(int argc, const char* argv[])''','''static bool ParseTarget(const char* name, Target* target)
{
  if (name == NULL || strcmp(name, "aarch64") == 0) {
    *target = TARGET_AARCH64;
    return true;
  }

  if (strcmp(name, "c") == 0) {
    *target = TARGET_C;
    return true;
  }
  return false;
}

static bool CompileTo(Target target, FbleModuleArg* arg)
{
  FbleLoadedProgram* prgm = FbleLoad(arg->search_path, arg->module_path, NULL);
  if (prgm == NULL) {
    return false;
  }

  FbleCompiledModule* module = FbleCompileModule(prgm);
  FbleFreeLoadedProgram(prgm);

  if (module == NULL) {
    return false;
  }

  FbleFreeModulePath(module->path);
  module->path = FbleCopyModulePath(arg->module_path);

  if (target == TARGET_C) {
    FbleGenerateC(stdout, module);
  } else {
    FbleGenerateAArch64(stdout, module);
  }

  FbleFreeCompiledModule(module);
  return true;
}

int main(int argc, const char* argv[])'''),
]
R['fbld']=[(E,'''                Env* next = CopyEnv(e);

                for (size_t i = 0; i < e->args.size; ++i) {
                  // Add arg to the envrionment for executing the body.
                  Env* ne = FbldAlloc(Env);
                  ne->refcount = 1;
                  ne->name = FbldNewText(e->args.xs[i]->loc, e->args.xs[i]->str);
                  ne->args.xs = NULL;
                  ne->args.size = 0;
                  ne->body = NULL;
                  ne->next = next;
                  next = ne;

                  // Add a command to evaluate the argument.
                  cmd = PushEval(cmd, c->env, markup->markups.xs[i], &ne->body);
                }
''','''                Env* next = CopyEnv(e);

                for (size_t i = 0; i < e->args.size; ++i) {
                  // Add arg to the envrionment for executing the body.
                  next = PushArg(next, e->args.xs[i]);

                  // Add a command to evaluate the argument.
                  cmd = PushEval(cmd, c->env, markup->markups.xs[i], &next->body);
                }
'''),
(E,'''static bool Eval(''','''static Env* PushArg(Env* next, FbldText* name)
{
  Env* env = FbldAlloc(Env);
  env->refcount = 1;
  env->name = FbldNewText(name->loc, name->str);
  env->args.size = 0;
  env->args.xs = NULL;
  env->body = NULL;
  env->next = next;
  return env;
}

static void FreeEvalCmd(EvalCmd* c)
{
  FbldFreeMarkup(c->markup);
  FreeEnv(c->env);
  FbldFree(c);
}

static bool Eval('''),
(E,'''                FbldReportError("expected 1 arguments to @head, but got %i\\n",
                    markup->text->loc, markup->markups.size);
                error = true;
                cmd = cmd->next;
                FreeEnv(c->env);
                FbldFreeMarkup(c->markup);
                FbldFree(c);
                break;''','''                FbldReportError("expected 1 arguments to @head, but got %i\\n",
                    markup->text->loc, markup->markups.size);
                error = true;
                cmd = cmd->next;
                FreeEvalCmd(c);
                break;'''),
(E,'''              HeadCmd* hc = FbldAlloc(HeadCmd);
              hc->_base.tag = HEAD_CMD;
              hc->_base.dest = c->_base.dest;
              hc->_base.next = c->_base.next;
              hc->a = NULL;
              cmd = &hc->_base;

              cmd = PushEval(cmd, c->env, markup->markups.xs[0], &hc->a);

              FreeEnv(c->env);
              FbldFreeMarkup(c->markup);
              FbldFree(c);''','''              HeadCmd* hc = FbldAlloc(HeadCmd);
              hc->a = NULL;
              hc->_base.tag = HEAD_CMD;
              hc->_base.next = c->_base.next;
              hc->_base.dest = c->_base.dest;

              cmd = PushEval(&hc->_base, c->env, markup->markups.xs[0], &hc->a);
              FreeEvalCmd(c);'''),
]
