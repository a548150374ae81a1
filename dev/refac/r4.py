V='lib/value.c'; T='lib/type.c'; S='pkgs/core/stdio.fble.c'; P='lib/arg-parse.c'
R={}
R['call']=[(V,'''  size_t num_unused = argc - executable->num_args;
  FbleValue** unused = args + executable->num_args;

  PushFrame(heap, function->tag != REF_VALUE);
  FbleValue* result = executable->run(heap, profile, func, args);

  if (result == TailCallSentinel) {
    EnsureTailCallArgsSpace(gTailCallData.argc + num_unused);
    memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
    gTailCallData.argc += num_unused;
    result = TailCall(heap, profile);
  } else if (num_unused > 0 && result != NULL) {
    FbleValue* new_func = FblePopFrame(heap, result);
    result = FbleCall(heap, profile, new_func, num_unused, unused);
  } else {
    result = FblePopFrame(heap, result);
  }

  if (profile != NULL) {
    FbleProfileExitBlock(profile);
  }

  return result;''','''  bool merge = (function->tag != REF_VALUE);
  PushFrame(heap, merge);
  FbleValue* result = executable->run(heap, profile, func, args);
  result = FinishCall(heap, profile, result, argc - executable->num_args, args + executable->num_args);

  if (profile == NULL) {
    return result;
  }

  FbleProfileExitBlock(profile);
  return result;'''),
(V,'''// See documentation in fble-value.h
FbleValue* FbleCall(''','''static FbleValue* FinishCall(FbleValueHeap* heap, FbleProfileThread* profile, FbleValue* result, size_t num_unused, FbleValue** unused)
{
  if (result == TailCallSentinel) {
    AppendTailCallArgs(num_unused, unused);
    return TailCall(heap, profile);
  }

  if (num_unused == 0 || result == NULL) {
    return FblePopFrame(heap, result);
  }

  FbleValue* new_func = FblePopFrame(heap, result);
  return FbleCall(heap, profile, new_func, num_unused, unused);
}

// See documentation in fble-value.h
FbleValue* FbleCall('''),
(V,'''    size_t num_unused = argc - exe->num_args;
    FbleValue** unused = args + exe->num_args;

    if (result == TailCallSentinel) {
      // Add the unused args to the end of the tail call args and make that
      // our new func and args.
      EnsureTailCallArgsSpace(gTailCallData.argc + num_unused);
      memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
      gTailCallData.argc += num_unused;
    } else if (num_unused > 0 && result != NULL) {
      return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
    } else {
      return FblePopFrame(heap, result);
    }
  }
''','''    size_t num_unused = argc - exe->num_args;
    FbleValue** unused = args + exe->num_args;

    if (result != TailCallSentinel) {
      if (num_unused > 0 && result != NULL) {
        result = FbleCall(heap, profile, result, num_unused, unused);
      }
      return FblePopFrame(heap, result);
    }

    // Add the unused args to the end of the tail call args and make that
    // our new func and args.
    AppendTailCallArgs(num_unused, unused);
  }
'''),
(V,'''// FbleRunFunction for PartialApply executable.
// See documentation of FbleRunFunction in fble-value.h
static FbleValue* PartialApplyImpl(''','''static void AppendTailCallArgs(size_t n, FbleValue** args)
{
  size_t argc = gTailCallData.argc + n;
  EnsureTailCallArgsSpace(argc);
  for (size_t i = 0; i < n; ++i) {
    gTailCallData.func_and_args[1 + gTailCallData.argc + i] = args[i];
  }
  gTailCallData.argc = argc;
}

// FbleRunFunction for PartialApply executable.
// See documentation of FbleRunFunction in fble-value.h
static FbleValue* PartialApplyImpl('''),
(V,'''static void EnsureTailCallArgsSpace(size_t argc)
{
  size_t capacity = argc + 1;
  if (capacity > gTailCallData.capacity) {
    gTailCallData.capacity = capacity;
    gTailCallData.func_and_args = FbleReAllocArray(FbleValue*, gTailCallData.func_and_args, capacity);
  }
}''','''static void EnsureTailCallArgsSpace(size_t argc)
{
  size_t capacity = 1 + argc;
  if (gTailCallData.capacity >= capacity) {
    return;
  }
  gTailCallData.func_and_args = FbleReAllocArray(FbleValue*, gTailCallData.func_and_args, capacity);
  gTailCallData.capacity = capacity;
}'''),
(V,'''  EnsureTailCallArgsSpace(argc);

  gTailCallData.argc = argc;
  gTailCallData.func_and_args[0] = func;
  memcpy(gTailCallData.func_and_args + 1, args, argc * sizeof(FbleValue*));
  return TailCallSentinel;''','''  EnsureTailCallArgsSpace(argc);
  memcpy(gTailCallData.func_and_args + 1, args, argc * sizeof(FbleValue*));
  gTailCallData.func_and_args[0] = func;
  gTailCallData.argc = argc;
  return TailCallSentinel;'''),
(V,'''#ifndef __WIN32
  // Restore the stack limit to what it was before.
  if (setrlimit(RLIMIT_STACK, &original_stack_limit) != 0) {
    assert(false && "setrlimit failed");
  }
#endif // __WIN32

  return result;''','''#ifndef __WIN32
  // Restore the stack limit to what it was before.
  int restored = setrlimit(RLIMIT_STACK, &original_stack_limit);
  if (restored != 0) {
    assert(false && "setrlimit failed");
  }
#endif // __WIN32

  return result;'''),
]
R['type']=[(T,'''      for (size_t i = 0; i < dt->fields.size; ++i) {
        if (HasParam(dt->fields.xs[i].type, param)) {
          return true;
        }
      }
      return false;
''','''      bool has = false;
      for (size_t i = 0; !has && i < dt->fields.size; ++i) {
        has = HasParam(dt->fields.xs[i].type, param);
      }
      return has;
'''),
(T,'''      if (poly->_base.tag == FBLE_POLY_TYPE) {
        FbleType* subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
        FbleType* result = Normal(heap, subst, &nn);
        FbleReleaseType(heap, &poly->_base);
        FbleReleaseType(heap, subst);
        return result;
      }

      // Don't bother simplifying at all if we can't do a substituion.
      FbleReleaseType(heap, &poly->_base);
      return FbleRetainType(heap, type);
''','''      FbleType* result = NULL;
      if (poly->_base.tag == FBLE_POLY_TYPE) {
        FbleType* subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
        result = Normal(heap, subst, &nn);
        FbleReleaseType(heap, subst);
      } else {
        // Don't bother simplifying at all if we can't do a substituion.
        result = FbleRetainType(heap, type);
      }
      FbleReleaseType(heap, &poly->_base);
      return result;
'''),
(T,'''  for (TypeList* n = normalizing; n != NULL; n = n->next) {
    if (type == n->type) {
      return NULL;
    }
  }

  TypeList nn''','''  TypeList* n = normalizing;
  while (n != NULL && n->type != type) {
    n = n->next;
  }
  if (n != NULL) {
    return NULL;
  }

  TypeList nn'''),
]
R['stdio']=[(S,'''  FbleValue* args[2] = { fble_stdio, argS };
  FbleValue* computation = FbleApply(heap, func, 2, args, profile);

  if (computation == NULL) {
    return FblePopFrame(heap, NULL);
  }

  // computation has type IO@<Bool@>, which is (World@) { R@<Bool@>; }
  FbleValue* world = FbleNewStructValue_(heap, 0);
  FbleValue* result = FbleApply(heap, computation, 1, &world, profile);
  if (result == NULL) {
    return FblePopFrame(heap, NULL);
  }

  // result has type R@<Bool@>, which is *(s, x)
  FbleValue* value = FbleStructValueField(result, 1);
  return FblePopFrame(heap, value);''','''  FbleValue* args[2] = { fble_stdio, argS };
  FbleValue* computation = FbleApply(heap, func, 2, args, profile);
  FbleValue* value = NULL;

  if (computation != NULL) {
    // computation has type IO@<Bool@>, which is (World@) { R@<Bool@>; }
    FbleValue* world = FbleNewStructValue_(heap, 0);
    FbleValue* result = FbleApply(heap, computation, 1, &world, profile);
    if (result != NULL) {
      // result has type R@<Bool@>, which is *(s, x)
      value = FbleStructValueField(result, 1);
    }
  }
  return FblePopFrame(heap, value);'''),
(S,'''  FbleValue* stdio = FbleLink(heap, profile, module, module_arg.search_path, module_arg.module_path);
  FbleFreeModuleArg(module_arg);
  if (stdio == NULL) {
    FbleFreeValueHeap(heap);
    FbleFreeProfile(profile);
    if (fprofile != NULL) {
      fclose(fprofile);
    }
    return EX_FAILURE;
  }
''','''  FbleValue* stdio = FbleLink(heap, profile, module, module_arg.search_path, module_arg.module_path);
  FbleFreeModuleArg(module_arg);
  if (stdio == NULL) {
    if (fprofile != NULL) {
      fclose(fprofile);
    }
    FbleFreeProfile(profile);
    FbleFreeValueHeap(heap);
    return EX_FAILURE;
  }
'''),
(S,'''  if (!module && module_arg.module_path == NULL) {
    fprintf(stderr, "missing required --module option.\\n");
    fprintf(stderr, "Try --help for usage info.\\n");
    FbleFreeModuleArg(module_arg);
    return EX_USAGE;
  }
''','''  if (module == NULL && module_arg.module_path == NULL) {
    fprintf(stderr, "missing required --module option.\\n");
    error = true;
  }

  if (error) {
    fprintf(stderr, "Try --help for usage info.\\n");
    FbleFreeModuleArg(module_arg);
    return EX_USAGE;
  }
'''),
]
R['args']=[(P,'''  if (strcmp(name, (*argv)[0]) == 0) {
    if (*argc < 2) {
      fprintf(stderr, "Error: missing argument to %s option.\\n", name);
      *error = true;
      return true;
    }

    if (*dest != NULL) {
      fprintf(stderr, "Error: duplicate %s option.\\n", name);
      *error = true;
      return true;
    }

    *dest = (*argv)[1];
    (*argc) -= 2;
    (*argv) += 2;
    return true;
  }
  return false;
}
''','''  if (strcmp(name, (*argv)[0]) != 0) {
    return false;
  }

  if (*argc < 2) {
    fprintf(stderr, "Error: missing argument to %s option.\\n", name);
    *error = true;
  } else if (*dest != NULL) {
    fprintf(stderr, "Error: duplicate %s option.\\n", name);
    *error = true;
  } else {
    *dest = (*argv)[1];
    Skip(2, argc, argv);
  }
  return true;
}
'''),
(P,'''// FbleParseStringArg --''','''static void Skip(int n, int* argc, const char*** argv)
{
  *argc -= n;
  *argv += n;
}

// FbleParseStringArg --'''),
(P,'''    FbleAppendToSearchPath(dest->search_path, (*argv)[1]);

    (*argc) -= 2;
    (*argv) += 2;
    return true;''','''    FbleAppendToSearchPath(dest->search_path, (*argv)[1]);
    Skip(2, argc, argv);
    return true;'''),
(P,'''      FbleString* path = FbleFindPackage(package);
      if (path != NULL) {
        FbleAppendStringToSearchPath(dest->search_path, path);
        FbleFreeString(path);
      } else {
        fprintf(stderr, "Error: package '%s' not found\\n", package);
        *error = true;
      }''','''      FbleString* path = FbleFindPackage(package);
      if (path == NULL) {
        fprintf(stderr, "Error: package '%s' not found\\n", package);
        *error = true;
        return true;
      }

      FbleAppendStringToSearchPath(dest->search_path, path);
      FbleFreeString(path);'''),
]
