TC='lib/typecheck.c'
R={}
# helper extraction: print of inferred types
R['inferprint']=[(TC,'''    if (vars.size > 0) {
      fprintf(stderr, "Inferred types:\\n");
      for (size_t i = 0; i < vars.size; ++i) {
        fprintf(stderr, "  ");
        FblePrintType(vars.xs[i].var);
        fprintf(stderr, ": ");
        if (vars.xs[i].value == NULL) {
          fprintf(stderr, "???");
        } else {
          FblePrintType(vars.xs[i].value);
        }
        fprintf(stderr, "\\n");
      }
    }
    FreeTc(th, result);
    return TC_FAILED;''','''    PrintInferredTypes(vars);
    FreeTc(th, result);
    return TC_FAILED;'''),
(TC,'''static Tc TypeInferArgs(FbleTypeHeap* th, FbleTypeAssignmentV vars, FbleTypeV expected, TcV actual, Tc poly)
{''','''static void PrintInferredTypes(FbleTypeAssignmentV vars)
{
  if (vars.size == 0) {
    return;
  }

  fprintf(stderr, "Inferred types:\\n");
  for (size_t i = 0; i < vars.size; ++i) {
    fprintf(stderr, "  ");
    FblePrintType(vars.xs[i].var);
    fprintf(stderr, ": ");
    if (vars.xs[i].value != NULL) {
      FblePrintType(vars.xs[i].value);
    } else {
      fprintf(stderr, "???");
    }
    fprintf(stderr, "\\n");
  }
}

static Tc ApplyTypeVar(FbleTypeHeap* th, Tc poly, FbleType* value, FbleLoc loc)
{
  FbleTypeType* arg_type = FbleNewType(th, FbleTypeType, FBLE_TYPE_TYPE, loc);
  arg_type->type = value;
  FbleTypeAddRef(th, &arg_type->_base, arg_type->type);
  FbleReleaseType(th, &arg_type->_base);

  Tc result = PolyApply(th, poly, &arg_type->_base, loc, loc);
  FreeTc(th, poly);
  return result;
}

static Tc TypeInferArgs(FbleTypeHeap* th, FbleTypeAssignmentV vars, FbleTypeV expected, TcV actual, Tc poly)
{'''),
(TC,'''    FbleTypeType* arg_type = FbleNewType(th, FbleTypeType, FBLE_TYPE_TYPE, loc);
    arg_type->type = vars.xs[i].value;
    FbleTypeAddRef(th, &arg_type->_base, arg_type->type);
    FbleReleaseType(th, &arg_type->_base);

    Tc prev = result;
    result = PolyApply(th, result, &arg_type->_base, loc, loc);
    FreeTc(th, prev);
    if (result.type == NULL) {''','''    result = ApplyTypeVar(th, result, vars.xs[i].value, loc);
    if (result.type == NULL) {'''),
]
# while loop + pointer
R['lettypes']=[(TC,'''        for (size_t j = 0; j < i; ++j) {
          if (FbleNamesEqual(let_expr->bindings.xs[i].name, let_expr->bindings.xs[j].name)) {
            ReportError(let_expr->bindings.xs[i].name.loc,
                "duplicate variable name '%n'\\n",
                let_expr->bindings.xs[i].name);
            error = true;
          }
        }
''','''        if (!CheckUnique(let_expr->bindings, i)) {
          error = true;
        }
'''),
(TC,'''static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* expr, Cleaner* cleaner)
{''','''static bool CheckUnique(FbleBindingV bindings, size_t i)
{
  bool unique = true;
  FbleName name = bindings.xs[i].name;
  size_t j = 0;
  while (j < i) {
    if (FbleNamesEqual(name, bindings.xs[j].name)) {
      ReportError(name.loc, "duplicate variable name '%n'\\n", name);
      unique = false;
    }
    j++;
  }
  return unique;
}

static FbleType* NewBindingType(FbleTypeHeap* th, FbleBinding* binding)
{
  char renamed[strlen(binding->name.name->str) + 3];
  renamed[0] = '\\0';
  size_t kind_level = FbleGetKindLevel(binding->kind);
  if (kind_level == 0) {
    strcat(renamed, "__");
  }
  strcat(renamed, binding->name.name->str);

  FbleName type_name = {
    .name = FbleNewString(renamed),
    .space = FBLE_TYPE_NAME_SPACE,
    .loc = binding->name.loc,
  };

  FbleKind* kind = FbleNewBasicKind(binding->kind->loc, kind_level);
  FbleType* type = FbleNewVarType(th, binding->name.loc, kind, type_name);
  FbleFreeKind(kind);
  FbleFreeString(type_name.name);
  return type;
}

static bool CheckBindingKind(FbleBinding* binding, FbleType* type)
{
  FbleKind* expected_kind = FbleCopyKind(binding->kind);
  FbleKind* actual_kind = FbleGetKind(type);
  bool equal = FbleKindsEqual(expected_kind, actual_kind);
  if (!equal) {
    ReportError(binding->expr->loc,
        "expected kind %k, but found something of kind %k\\n",
        expected_kind, actual_kind);
  }
  FbleFreeKind(expected_kind);
  FbleFreeKind(actual_kind);
  return equal;
}

static Tc TypeCheckVarExpr(FbleTypeHeap* th, Scope* scope, FbleVarExpr* var_expr)
{
  VarName name = { .normal = var_expr->var, .module = NULL };
  Var* var = GetVar(th, scope, name, false);
  if (var == NULL) {
    ReportError(var_expr->var.loc, "variable '%n' not defined\\n", var_expr->var);
    return TC_FAILED;
  }

  if (var->var.tag == TYPE_VAR) {
    FbleTypeValueTc* type_tc = FbleNewTc(FbleTypeValueTc, FBLE_TYPE_VALUE_TC, var_expr->_base.loc);
    return MkTc(FbleRetainType(th, var->type), &type_tc->_base);
  }

  FbleVarTc* var_tc = FbleNewTc(FbleVarTc, FBLE_VAR_TC, var_expr->_base.loc);
  var_tc->var = var->var;
  return MkTc(FbleRetainType(th, var->type), &var_tc->_base);
}

static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* expr, Cleaner* cleaner)
{'''),
(TC,'''          char renamed[strlen(binding->name.name->str) + 3];
          renamed[0] = '\\0';
          size_t kind_level = FbleGetKindLevel(binding->kind);
          if (kind_level == 0) {
            strcat(renamed, "__");
          } 
          strcat(renamed, binding->name.name->str);

          FbleName type_name = {
            .name = FbleNewString(renamed),
            .space = FBLE_TYPE_NAME_SPACE,
            .loc = binding->name.loc,
          };

          FbleKind* kind = FbleNewBasicKind(binding->kind->loc, kind_level);
          types[i] = FbleNewVarType(th, binding->name.loc, kind, type_name);
          FbleFreeKind(kind);
          FbleFreeString(type_name.name);
''','''          types[i] = NewBindingType(th, binding);
'''),
(TC,'''          FbleKind* expected_kind = FbleCopyKind(binding->kind);
          FbleKind* actual_kind = FbleGetKind(defs[i].type);
          if (!FbleKindsEqual(expected_kind, actual_kind)) {
            ReportError(binding->expr->loc,
                "expected kind %k, but found something of kind %k\\n",
                expected_kind, actual_kind);
            error = true;
          }
          FbleFreeKind(expected_kind);
          FbleFreeKind(actual_kind);
''','''          error = !CheckBindingKind(binding, defs[i].type);
'''),
(TC,'''      FbleVarExpr* var_expr = (FbleVarExpr*)expr;
      VarName name = { .normal = var_expr->var, .module = NULL };
      Var* var = GetVar(th, scope, name, false);
      if (var == NULL) {
        ReportError(var_expr->var.loc, "variable '%n' not defined\\n", var_expr->var);
        return TC_FAILED;
      }

      FbleTc* tc = NULL;
      if (var->var.tag == TYPE_VAR) {
        FbleTypeValueTc* type_tc = FbleNewTc(FbleTypeValueTc, FBLE_TYPE_VALUE_TC, expr->loc);
        tc = &type_tc->_base;
      } else {
        FbleVarTc* var_tc = FbleNewTc(FbleVarTc, FBLE_VAR_TC, expr->loc);
        var_tc->var = var->var;
        tc = &var_tc->_base;
      }
      return MkTc(FbleRetainType(th, var->type), tc);
''','''      return TypeCheckVarExpr(th, scope, (FbleVarExpr*)expr);
'''),
(TC,'''      for (size_t i = 0; i < let_expr->bindings.size; ++i) {
        if (defs[i].type != NULL) {
          if (FbleTypeIsVacuous(th, types[i])) {''','''      for (size_t i = 0; i < let_expr->bindings.size; ++i) {
        if (defs[i].type == NULL) {
          continue;
        }
        {
          if (FbleTypeIsVacuous(th, types[i])) {'''),
]
# struct copy: extract args check, inverted conditions, reorder
R['structcopy']=[(TC,'''      size_t argc = struct_expr->args.size;
      Tc args[argc];
      bool error = false;
      for (size_t i = 0; i < argc; ++i) {
        size_t j = argc - i - 1;
        FbleTaggedExpr* arg = struct_expr->args.xs + j;
        args[j] = TypeCheckExpr(th, scope, arg->expr);
        CleanTc(cleaner, args[j]);
        error = error || (args[j].type == NULL);
      }

      if (error) {
        return TC_FAILED;
      }

      size_t fieldc = struct_type->fields.size;
      FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);''','''      size_t argc = struct_expr->args.size;
      Tc args[argc];
      if (!TypeCheckArgs(th, scope, struct_expr->args, cleaner, args)) {
        return TC_FAILED;
      }

      bool error = false;
      size_t fieldc = struct_type->fields.size;
      FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);'''),
(TC,'''static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* expr, Cleaner* cleaner)
{''','''static bool TypeCheckArgs(FbleTypeHeap* th, Scope* scope, FbleTaggedExprV exprs, Cleaner* cleaner, Tc* args)
{
  bool ok = true;
  for (size_t j = exprs.size; j > 0; --j) {
    args[j-1] = TypeCheckExpr(th, scope, exprs.xs[j-1].expr);
    CleanTc(cleaner, args[j-1]);
    if (args[j-1].type == NULL) {
      ok = false;
    }
  }
  return ok;
}

static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* expr, Cleaner* cleaner)
{'''),
(TC,'''        if (a < struct_expr->args.size && FbleNamesEqual(arg->name, struct_type->fields.xs[i].name)) {
          // Take the field value from the provided argument.
          FbleAppendToVector(struct_copy->fields, FbleCopyTc(args[a].tc));
          if (!FbleTypesEqual(th, struct_type->fields.xs[i].type, args[a].type)) {
            ReportError(args[a].tc->loc,
                "expected type %t, but found %t\\n",
                struct_type->fields.xs[i].type, args[a].type);
            error = true;
          }
          a++;
        } else {
          // Take the field value from the source struct.
          FbleAppendToVector(struct_copy->fields, NULL);
        }
      }
''','''        FbleTaggedType* field = struct_type->fields.xs + i;
        bool provided = a < struct_expr->args.size && FbleNamesEqual(arg->name, field->name);
        if (!provided) {
          // Take the field value from the source struct.
          FbleAppendToVector(struct_copy->fields, NULL);
          continue;
        }

        // Take the field value from the provided argument.
        if (!FbleTypesEqual(th, field->type, args[a].type)) {
          ReportError(args[a].tc->loc,
              "expected type %t, but found %t\\n",
              field->type, args[a].type);
          error = true;
        }
        FbleAppendToVector(struct_copy->fields, FbleCopyTc(args[a].tc));
        a++;
      }
'''),
]
# union value: search loop to helper
R['unionvalue']=[(TC,'''      FbleType* field_type = NULL;
      size_t tag = -1;
      for (size_t i = 0; i < union_type->fields.size; ++i) {
        FbleTaggedType* field = union_type->fields.xs + i;
        if (FbleNamesEqual(field->name, union_value_expr->field)) {
          field_type = field->type;
          tag = i;
          break;
        }
      }
''','''      FbleType* field_type = NULL;
      size_t tag = 0;
      while (tag < union_type->fields.size
          && !FbleNamesEqual(union_type->fields.xs[tag].name, union_value_expr->field)) {
        tag++;
      }
      if (tag < union_type->fields.size) {
        field_type = union_type->fields.xs[tag].type;
      }
'''),
]
R['cleanup']=[(TC,'''static void FreeTc(FbleTypeHeap* th, Tc tc)
{
  FbleReleaseType(th, tc.type);
  FbleFreeTc(tc.tc);''','''static void FreeTc(FbleTypeHeap* th, Tc tc)
{
  FbleFreeTc(tc.tc);
  FbleReleaseType(th, tc.type);'''),
]
