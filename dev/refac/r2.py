C='lib/compile.c'; G='lib/c.c'; I='lib/interpret.c'
R={}
R['branch']=[(C,'''        EnterBlock(blocks, select_tc->targets.xs[i].target.name, select_tc->targets.xs[i].target.loc, scope, exit);
        Local* result = CompileExpr(blocks, true, exit, scope, select_tc->targets.xs[i].target.tc);

        if (!exit) {
          FbleCopyInstr* copy = FbleAllocInstr(FbleCopyInstr, FBLE_COPY_INSTR);
          copy->source = result->var;
          copy->dest = select_result->var.index;
          AppendInstr(scope, &copy->_base);
        }
        ExitBlock(blocks, scope, exit);

        ReleaseLocal(scope, result, exit);

        if (!exit) {''','''        CompileBranch(blocks, exit, scope, select_tc->targets.xs[i].target, select_result);

        if (!exit) {'''),
(C,'''        EnterBlock(blocks, select_tc->default_.name, select_tc->default_.loc, scope, exit);
        Local* result = CompileExpr(blocks, true, exit, scope, select_tc->default_.tc);

        if (!exit) {
          FbleCopyInstr* copy = FbleAllocInstr(FbleCopyInstr, FBLE_COPY_INSTR);
          copy->source = result->var;
          copy->dest = select_result->var.index;
          AppendInstr(scope, &copy->_base);
        }
        ExitBlock(blocks, scope, exit);
        ReleaseLocal(scope, result, exit);
''','''        CompileBranch(blocks, exit, scope, select_tc->default_, select_result);
'''),
(C,'''static Local* CompileExpr(Blocks* blocks, bool stmt, bool exit, Scope* scope, FbleTc* v)
{
  if (stmt) {
    FbleStatementDebugInfo* info = FbleAlloc(FbleStatementDebugInfo);
    info->_base.tag = FBLE_STATEMENT_DEBUG_INFO;
    info->_base.next = NULL;
    info->loc = FbleCopyLoc(v->loc);
    AppendDebugInfo(scope, &info->_base);
  }
''','''static void CompileBranch(Blocks* blocks, bool exit, Scope* scope, FbleTcBinding branch, Local* dest)
{
  EnterBlock(blocks, branch.name, branch.loc, scope, exit);
  Local* result = CompileExpr(blocks, true, exit, scope, branch.tc);

  if (!exit) {
    FbleCopyInstr* copy = FbleAllocInstr(FbleCopyInstr, FBLE_COPY_INSTR);
    copy->dest = dest->var.index;
    copy->source = result->var;
    AppendInstr(scope, &copy->_base);
  }
  ExitBlock(blocks, scope, exit);
  ReleaseLocal(scope, result, exit);
}

static void MarkStatement(Scope* scope, FbleLoc loc)
{
  FbleStatementDebugInfo* info = FbleAlloc(FbleStatementDebugInfo);
  info->_base.next = NULL;
  info->_base.tag = FBLE_STATEMENT_DEBUG_INFO;
  info->loc = FbleCopyLoc(loc);
  AppendDebugInfo(scope, &info->_base);
}

static void ArgVars(Local** args, size_t argc, FbleVarV* vars)
{
  FbleInitVector(*vars);
  for (size_t i = 0; i < argc; ++i) {
    FbleAppendToVector(*vars, args[i]->var);
  }
}

static void ReleaseLocals(Scope* scope, Local** locals, size_t n, bool exit)
{
  for (Local** l = locals; l < locals + n; ++l) {
    ReleaseLocal(scope, *l, exit);
  }
}

static Local* CompileExpr(Blocks* blocks, bool stmt, bool exit, Scope* scope, FbleTc* v)
{
  if (stmt) {
    MarkStatement(scope, v->loc);
  }
'''),
(C,'''static Local* CompileExpr(Blocks* blocks, bool stmt, bool exit, Scope* scope, FbleTc* tc);
''','''static Local* CompileExpr(Blocks* blocks, bool stmt, bool exit, Scope* scope, FbleTc* tc);
static void CompileBranch(Blocks* blocks, bool exit, Scope* scope, FbleTcBinding branch, Local* dest);
'''),
(C,'''        FbleInitVector(call_instr->args);
        for (size_t i = 0; i < argc; ++i) {
          FbleAppendToVector(call_instr->args, args[i]->var);
        }

        AppendInstr(scope, &call_instr->_base);
      } else {''','''        ArgVars(args, argc, &call_instr->args);
        AppendInstr(scope, &call_instr->_base);
      } else {'''),
(C,'''        FbleInitVector(call_instr->args);
        call_instr->dest = dest->var.index;
        for (size_t i = 0; i < argc; ++i) {
          FbleAppendToVector(call_instr->args, args[i]->var);
        }
''','''        call_instr->dest = dest->var.index;
        ArgVars(args, argc, &call_instr->args);
'''),
(C,'''      ReleaseLocal(scope, func, exit);
      for (size_t i = 0; i < argc; ++i) {
        ReleaseLocal(scope, args[i], exit);
      }

      return dest;''','''      ReleaseLocals(scope, args, argc, exit);
      ReleaseLocal(scope, func, exit);
      return dest;'''),
]
R['structvalue']=[(C,'''      FbleInitVector(struct_instr->args);
      AppendInstr(scope, &struct_instr->_base);
      CompileExit(exit, scope, local);

      for (size_t i = 0; i < argc; ++i) {
        FbleAppendToVector(struct_instr->args, args[i]->var);
        ReleaseLocal(scope, args[i], exit);
      }

      return local;
    }

    case FBLE_STRUCT_COPY_TC''','''      FbleInitVector(struct_instr->args);
      for (size_t i = 0; i < argc; ++i) {
        FbleAppendToVector(struct_instr->args, args[i]->var);
      }
      AppendInstr(scope, &struct_instr->_base);
      CompileExit(exit, scope, local);

      size_t i = 0;
      while (i < argc) {
        ReleaseLocal(scope, args[i++], exit);
      }

      return local;
    }

    case FBLE_STRUCT_COPY_TC'''),
(C,'''      FbleInstrTag tag;
      if (access_tc->datatype == FBLE_STRUCT_DATATYPE) {
        tag = FBLE_STRUCT_ACCESS_INSTR;
      } else {
        assert(access_tc->datatype == FBLE_UNION_DATATYPE);
        tag = FBLE_UNION_ACCESS_INSTR;
      }

      FbleAccessInstr* access = FbleAllocInstr(FbleAccessInstr, tag);
      access->obj = obj->var;
      access->tag = access_tc->tag;
      access->loc = FbleCopyLoc(access_tc->loc);
      AppendInstr(scope, &access->_base);

      Local* local = NewLocal(scope);
      access->dest = local->var.index;
''','''      FbleInstrTag tag = (access_tc->datatype == FBLE_STRUCT_DATATYPE)
        ? FBLE_STRUCT_ACCESS_INSTR : FBLE_UNION_ACCESS_INSTR;

      Local* local = NewLocal(scope);
      FbleAccessInstr* access = FbleAllocInstr(FbleAccessInstr, tag);
      access->obj = obj->var;
      access->dest = local->var.index;
      access->tag = access_tc->tag;
      access->loc = FbleCopyLoc(access_tc->loc);
      AppendInstr(scope, &access->_base);
'''),
(C,'''    case FBLE_VAR_TC: {
      FbleVarTc* var_tc = (FbleVarTc*)v;
      Local* local = GetVar(scope, var_tc->var);
      local->refcount++;
      CompileExit(exit, scope, local);
      return local;''','''    case FBLE_VAR_TC: {
      FbleVarTc* var_tc = (FbleVarTc*)v;
      Local* result = GetVar(scope, var_tc->var);
      CompileExit(exit, scope, result);
      result->refcount++;
      return result;'''),
(C,'''  if (exit && result != NULL) {
    FbleReturnInstr* return_instr = FbleAllocInstr(FbleReturnInstr, FBLE_RETURN_INSTR);
    return_instr->result = result->var;
    AppendInstr(scope, &return_instr->_base);
  }
''','''  if (!exit || result == NULL) {
    return;
  }

  FbleReturnInstr* return_instr = FbleAllocInstr(FbleReturnInstr, FBLE_RETURN_INSTR);
  return_instr->result = result->var;
  AppendInstr(scope, &return_instr->_base);
'''),
]
R['cprofile']=[(G,'''    if (instr->profile_ops != NULL) {
      fprintf(fout, "  if (profile) {\\n");
      for (FbleProfileOp* op = instr->profile_ops; op != NULL; op = op->next) {
        switch (op->tag) {
          case FBLE_PROFILE_ENTER_OP: {
            fprintf(fout, "    FbleProfileEnterBlock(profile, profile_block_id + %zi);\\n", op->arg);
            break;
          }

          case FBLE_PROFILE_REPLACE_OP: {
            fprintf(fout, "    FbleProfileReplaceBlock(profile, profile_block_id + %zi);\\n", op->arg);
            break;
          }

          case FBLE_PROFILE_EXIT_OP: {
            fprintf(fout, "    FbleProfileExitBlock(profile);\\n");
            break;
          }

          case FBLE_PROFILE_SAMPLE_OP: {
            fprintf(fout, "    FbleProfileRandomSample(profile, %zi);\\n", op->arg);
            break;
          }
        }
      }
      fprintf(fout, "  }\\n");
    }
''','''    EmitProfileOps(fout, instr->profile_ops);
'''),
(G,'''static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
{''','''static void EmitProfileOps(FILE* fout, FbleProfileOp* ops)
{
  if (ops == NULL) {
    return;
  }

  fprintf(fout, "  if (profile) {\\n");
  FbleProfileOp* op = ops;
  while (op != NULL) {
    switch (op->tag) {
      case FBLE_PROFILE_EXIT_OP:
        fprintf(fout, "    FbleProfileExitBlock(profile);\\n");
        break;

      case FBLE_PROFILE_ENTER_OP:
        fprintf(fout, "    FbleProfileEnterBlock(profile, profile_block_id + %zi);\\n", op->arg);
        break;

      case FBLE_PROFILE_REPLACE_OP:
        fprintf(fout, "    FbleProfileReplaceBlock(profile, profile_block_id + %zi);\\n", op->arg);
        break;

      case FBLE_PROFILE_SAMPLE_OP:
        fprintf(fout, "    FbleProfileRandomSample(profile, %zi);\\n", op->arg);
        break;
    }
    op = op->next;
  }
  fprintf(fout, "  }\\n");
}

static void EmitCallArgs(FILE* fout, size_t pc, FbleVarV args)
{
  static const char* var_tag[] = { "s", "a", "l" };
  fprintf(fout, "  FbleValue* ca%zi[%zi] = {", pc, args.size);
  for (size_t i = 0; i < args.size; ++i) {
    FbleVar var = args.xs[i];
    fprintf(fout, "%s[%zi],", var_tag[var.tag], var.index);
  }
  fprintf(fout, "};\\n");
}

static void EmitNullCheck(FILE* fout, size_t dest, const char* lmsg, FbleLoc loc)
{
  fprintf(fout, "  if (l[%zi] == NULL) ", dest);
  ReturnAbort(fout, lmsg, loc);
}

static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
{'''),
(G,'''        fprintf(fout, "  FbleValue* ca%zi[%zi] = {", pc, call_instr->args.size);
        for (size_t i = 0; i < call_instr->args.size; ++i) {
          fprintf(fout, "%s[%zi],",
              var_tag[call_instr->args.xs[i].tag],
              call_instr->args.xs[i].index);
        }
        fprintf(fout, "};\\n");
        fprintf(fout, "  l[%zi] = FbleCall(''','''        EmitCallArgs(fout, pc, call_instr->args);
        fprintf(fout, "  l[%zi] = FbleCall('''),
(G,'''        fprintf(fout, "  FbleValue* ca%zi[%zi] = {", pc, call_instr->args.size);
        for (size_t i = 0; i < call_instr->args.size; ++i) {
          fprintf(fout, "%s[%zi],",
              var_tag[call_instr->args.xs[i].tag],
              call_instr->args.xs[i].index);
        }
        fprintf(fout, "};\\n");

        fprintf(fout, "  return''','''        EmitCallArgs(fout, pc, call_instr->args);
        fprintf(fout, "  return'''),
(G,'''        fprintf(fout, "  if (l[%zi] == NULL) ", call_instr->dest);
        ReturnAbort(fout, "CalleeAborted", call_instr->loc);''','''        EmitNullCheck(fout, call_instr->dest, "CalleeAborted", call_instr->loc);'''),
(G,'''        fprintf(fout, "  if (l[%zi] == NULL) ", access_instr->dest);
        ReturnAbort(fout, "UndefinedStructValue", access_instr->loc);''','''        EmitNullCheck(fout, access_instr->dest, "UndefinedStructValue", access_instr->loc);'''),
(G,'''  fprintf(fout, "{\\n");
  fprintf(fout, "    ReportAbort(%s, %zi, %zi);\\n", lmsg, loc.line, loc.col);
  fprintf(fout, "    return NULL;\\n");
  fprintf(fout, "  }\\n");
''','''  fprintf(fout, "{\\n    ReportAbort(%s, %zi, %zi);\\n    return NULL;\\n  }\\n",
      lmsg, loc.line, loc.col);
'''),
(G,'''  fprintf(fout, "static FbleString " LABEL " = {\\n", id);
  fprintf(fout, "  .refcount = 1,\\n");
  fprintf(fout, "  .magic = FBLE_STRING_MAGIC,\\n");
''','''  fprintf(fout, "static FbleString " LABEL " = {\\n"
      "  .refcount = 1,\\n"
      "  .magic = FBLE_STRING_MAGIC,\\n", id);
'''),
(G,'''        size_t target = select_instr->default_;
        assert(target > pc);
        jump_target[target] = true;
        fprintf(fout, "    default: goto pc_%zi;\\n", target);
        fprintf(fout, "  }\\n");
        break;''','''        size_t target = select_instr->default_;
        assert(target > pc);
        fprintf(fout, "    default: goto pc_%zi;\\n", target);
        fprintf(fout, "  }\\n");
        jump_target[target] = true;
        break;'''),
(G,'''        fprintf(fout, "  l[%zi] = FbleNewFuncValue(heap, &exe_%zi, profile_block_id + %zi, fv%zi",
            func_instr->dest, exe_id, func_instr->profile_block_offset, pc);
        exe_id++;
        fprintf(fout, ");\\n");
''','''        fprintf(fout, "  l[%zi] = FbleNewFuncValue(heap, &exe_%zi, profile_block_id + %zi, fv%zi);\\n",
            func_instr->dest, exe_id++, func_instr->profile_block_offset, pc);
'''),
]
R['interp']=[(I,'''        FbleValue* call_args[call_instr->args.size];
        for (size_t i = 0; i < call_instr->args.size; ++i) {
          call_args[i] = GET(call_instr->args.xs[i]);
        }

        locals[call_instr->dest] = FbleCall(heap, profile, func, call_instr->args.size, call_args);
        if (locals[call_instr->dest] == NULL) {
          FbleReportError("callee aborted\\n", call_instr->loc);
          return NULL;
        }
''','''        size_t argc = call_instr->args.size;
        FbleValue* call_args[argc];
        GetVars(vars, call_instr->args, call_args);

        FbleValue* result = FbleCall(heap, profile, func, argc, call_args);
        if (result == NULL) {
          FbleReportError("callee aborted\\n", call_instr->loc);
          return NULL;
        }
        locals[call_instr->dest] = result;
'''),
(I,'''        FbleValue* struct_args[argc];
        for (size_t i = 0; i < argc; ++i) {
          struct_args[i] = GET(struct_value_instr->args.xs[i]);
        }
''','''        FbleValue* struct_args[argc];
        GetVars(vars, struct_value_instr->args, struct_args);
'''),
(I,'''        FbleValue* obj = GET(access_instr->obj);
        locals[access_instr->dest] = FbleUnionValueField(obj, access_instr->tag);

        if (locals[access_instr->dest] == NULL) {
          FbleReportError("undefined union value access\\n", access_instr->loc);
          return NULL;
        }

        if (locals[access_instr->dest] == FbleWrongUnionTag) {
          locals[access_instr->dest] = NULL;
          FbleReportError("union field access undefined: wrong tag\\n", access_instr->loc);
          return NULL;
        }
''','''        FbleValue* obj = GET(access_instr->obj);
        FbleValue* field = FbleUnionValueField(obj, access_instr->tag);

        if (field == FbleWrongUnionTag) {
          FbleReportError("union field access undefined: wrong tag\\n", access_instr->loc);
          return NULL;
        }

        if (field == NULL) {
          FbleReportError("undefined union value access\\n", access_instr->loc);
          return NULL;
        }

        locals[access_instr->dest] = field;
'''),
(I,'''    if (profile) {
      for (FbleProfileOp* op = instr->profile_ops; op != NULL; op = op->next) {
        switch (op->tag) {
          case FBLE_PROFILE_ENTER_OP:
            FbleProfileEnterBlock(profile, profile_block_id + op->arg);
            break;

          case FBLE_PROFILE_REPLACE_OP:
            FbleProfileReplaceBlock(profile, profile_block_id + op->arg);
            break;

          case FBLE_PROFILE_EXIT_OP:
            FbleProfileExitBlock(profile);
            break;

          case FBLE_PROFILE_SAMPLE_OP:
            FbleProfileRandomSample(profile, op->arg);
            break;
        }
      }
    }
''','''    if (profile) {
      RunProfileOps(profile, profile_block_id, instr->profile_ops);
    }
'''),
(I,'''static FbleValue* Interpret(
    FbleValueHeap* heap,
    FbleProfileThread* profile,
    FbleFunction* function,
    FbleValue** args)
{''','''static void GetVars(FbleValue*** vars, FbleVarV indices, FbleValue** dst)
{
  for (size_t i = 0; i < indices.size; ++i) {
    dst[i] = GET(indices.xs[i]);
  }
}

static void RunProfileOps(FbleProfileThread* profile, FbleBlockId base, FbleProfileOp* op)
{
  for (; op != NULL; op = op->next) {
    if (op->tag == FBLE_PROFILE_ENTER_OP) {
      FbleProfileEnterBlock(profile, base + op->arg);
    } else if (op->tag == FBLE_PROFILE_REPLACE_OP) {
      FbleProfileReplaceBlock(profile, base + op->arg);
    } else if (op->tag == FBLE_PROFILE_EXIT_OP) {
      FbleProfileExitBlock(profile);
    } else {
      FbleProfileRandomSample(profile, op->arg);
    }
  }
}

static FbleValue* Interpret(
    FbleValueHeap* heap,
    FbleProfileThread* profile,
    FbleFunction* function,
    FbleValue** args)
{'''),
]
