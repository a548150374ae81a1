From c4485b2504cf792512770e01f020556c71cbbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 01/18] fix: don't crash on struct copy with an ill-typed
 argument

TypeCheckExprWithCleaner passed a NULL tc to FbleCopyTc when an argument of
a struct copy expression failed to type check.
---
 lib/typecheck.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 4464903..505bbba 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1318,6 +1318,10 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         error = error || (args[j].type == NULL);
       }
 
+      if (error) {
+        return TC_FAILED;
+      }
+
       size_t fieldc = struct_type->fields.size;
       FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
       struct_copy->source = FbleCopyTc(src.tc);
-- 
2.43.0


From 31bd2c7513d718c0e9d47e447386320953236af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 02/18] fix: check for a data type before reading the datatype
 of a union value

A union value of something other than a data type read FbleDataType fields
out of a different kind of type.
---
 lib/typecheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 505bbba..2515897 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1376,7 +1376,8 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
       FbleDataType* union_type = (FbleDataType*)DepolyType(th, type, vars);
       CleanType(cleaner, &union_type->_base);
 
-      if (union_type->datatype != FBLE_UNION_DATATYPE) {
+      if (union_type->_base.tag != FBLE_DATA_TYPE
+          || union_type->datatype != FBLE_UNION_DATATYPE) {
         ReportError(union_value_expr->type->loc,
             "expected a union type, but found %t\n", type);
         return TC_FAILED;
-- 
2.43.0


From 3ff488d67245d5c6659287f30605e969e2d190a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 03/18] fix: pass a name to the %n conversion for an illegal
 union select tag

---
 lib/typecheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 2515897..85b823d 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1522,7 +1522,7 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         error = true;
         ReportError(select_expr->choices.xs[branch].name.loc,
             "illegal use of tag '%n' in union select\n",
-            select_expr->choices.xs[branch]);
+            select_expr->choices.xs[branch].name);
       }
 
       if (error) {
-- 
2.43.0


From bdcc2a036765c00759b87df88e86f2f64c9be6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 04/18] fix: don't crash on @tail or @plain of markup that
 failed to evaluate

The result of an evaluation that reported an error is NULL, which HeadOf
allows for but TailOf and MapPlain did not.
---
 fbld/eval.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fbld/eval.c b/fbld/eval.c
index cdf9f07..1af5dcc 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -320,6 +320,11 @@ static bool HeadOf(FbldMarkup* m, char* out)
  */
 static bool TailOf(FbldMarkup* m, FbldMarkup** out)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return false;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       if (m->text->str[0] == '\0') {
@@ -460,6 +465,11 @@ static bool Eq(FbldMarkup* a, FbldMarkup* b, bool* eq)
  */
 static FbldMarkup* MapPlain(const char* f, FbldMarkup* m)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return NULL;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       FbldMarkup* n = FbldAlloc(FbldMarkup);
-- 
2.43.0


From 53354a6638c45b764637546748b5778266ad3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 05/18] fix: don't abort when appending empty text to empty
 text in fbld

@error[@head{}@head{}] failed the assertion that there is room for the
terminating nul.
---
 fbld/markup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/markup.c b/fbld/markup.c
index 0149f9d..7bdb545 100644
--- a/fbld/markup.c
+++ b/fbld/markup.c
@@ -153,7 +153,7 @@ static bool TextOfMarkup(FbldMarkup* markup, FbldText** text, size_t* capacity)
       size_t src_size = strlen(markup->text->str);
       if (src_size >= *capacity) {
         size_t size = strlen((*text)->str) + *capacity;
-        size_t nsize = 2 * (strlen((*text)->str) + src_size);
+        size_t nsize = 2 * (strlen((*text)->str) + src_size + 1);
         *text = FbldReAllocRaw(*text, sizeof(FbldText) + nsize);
         *capacity = nsize - size;
         assert(src_size < *capacity);
-- 
2.43.0


From fe8effec678532d5a2ad584080c07156eb687f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 06/18] fix: release the right markup when a comparison fails
 in fbld

The tail of the first argument was left behind.
---
 fbld/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/eval.c b/fbld/eval.c
index 1af5dcc..5824753 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -440,7 +440,7 @@ static bool Eq(FbldMarkup* a, FbldMarkup* b, bool* eq)
       // TailOf we would have encountered in HeadOf earlier.
       FbldFreeMarkup(a);
       FbldFreeMarkup(b);
-      FbldFreeMarkup(nb);
+      FbldFreeMarkup(na);
       return false;
     }
     assert(nb != NULL);
-- 
2.43.0


From 578a2d61651539426b4c2245873a2bf62096bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 07/18] fix: report end of file in a same line argument instead
 of aborting

A document that ends in the middle of a same line argument ran into the
assertion in Advance.
---
 fbld/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 8de0cc5..86d52b4 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -408,7 +408,7 @@ static FbldMarkup* ParseInline(Lex* lex, InlineContext context)
       break;
     }
 
-    if (context == INLINE_ARG && IsEnd(lex)) {
+    if ((context == INLINE_ARG || context == SAME_LINE_ARG) && IsEnd(lex)) {
       FbldReportError("unexpected end of file\n", lex->loc);
       FbldFree(chars.xs);
       FbldFreeMarkup(markup);
-- 
2.43.0


From 4b416ef9eb4577971c1cdcd87b08a48bf91c0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 08/18] fix: reject input with a syntax error after a complete
 statement

yyparse can reduce the start symbol before it sees that what follows is not
allowed. The error was reported, but FbleParse and FbleParseModulePath
returned the result anyway.
---
 lib/parse.y | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 247419c..a6fd312 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -933,7 +933,12 @@ FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps)
     .start_token = PARSE_PROGRAM
   };
   FbleExpr* result = NULL;
-  yyparse(&lex, &result, deps);
+  if (yyparse(&lex, &result, deps) != 0) {
+    // The start symbol may already have been reduced when an error is found
+    // in what follows it.
+    FbleFreeExpr(result);
+    result = NULL;
+  }
   fclose(fin);
   return result;
 }
@@ -957,7 +962,7 @@ FbleModulePath* FbleParseModulePath(const char* string)
 
   FbleModulePathV path;
   FbleInitVector(path);
-  yyparse(&lex, NULL, &path);
+  bool error = (yyparse(&lex, NULL, &path) != 0);
   FbleFreeLoc(lex.loc);
 
   FbleModulePath* result = NULL;
@@ -965,6 +970,10 @@ FbleModulePath* FbleParseModulePath(const char* string)
   if (path.size > 0) {
     result = path.xs[0];
   }
+  if (error && result != NULL) {
+    FbleFreeModulePath(result);
+    result = NULL;
+  }
   FbleFreeVector(path);
   return result;
 }
-- 
2.43.0


From a7c6ff3f2c28c770b75b3d22ec89309527a2ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 09/18] fix: make room for the nul when fble-perf-profile reads
 a line

An empty first line dereferenced NULL and a line whose length is exactly the
capacity was terminated past the end of its buffer.
---
 bin/fble-perf-profile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index cb4d1b3..9c85809 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -47,8 +47,13 @@ static bool GetLine(FILE* file, String* line)
   line->size = 0;
 
   int c = fgetc(file);
+  if (line->capacity == 0) {
+    line->capacity = 64;
+    line->chars = realloc(line->chars, line->capacity * sizeof(char));
+  }
   while (c != EOF && c != '\n') {
-    if (line->size == line->capacity) {
+    // Leave room for the terminating nul.
+    if (line->size + 1 == line->capacity) {
       line->capacity = 2 * (line->capacity + 1);
       line->chars = realloc(line->chars, line->capacity * sizeof(char));
     }
-- 
2.43.0


From 52f104bf2fac67dc9bedbe479c5d8d045153138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 10/18] fix: reject invalid arguments to fble-perf-profile

An argument that is not recognised was retried forever.
---
 bin/fble-perf-profile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 9c85809..3f9af68 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -170,6 +170,7 @@ int main(int argc, const char* argv[])
     }
     if (FbleParseBoolArg("-v", &version, &argc, &argv, &error)) continue;
     if (FbleParseBoolArg("--version", &version, &argc, &argv, &error)) continue;
+    if (FbleParseInvalidArg(&argc, &argv, &error)) continue;
   }
 
   if (version) {
-- 
2.43.0


From 1d0bb824ae13d4ccff24fa0c2a6276080cb8c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 11/18] fix: release the profile when fble-perf-profile can't
 parse its input

---
 bin/fble-perf-profile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 3f9af68..a3939bd 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -212,6 +212,9 @@ int main(int argc, const char* argv[])
     int count;
     if (sscanf(line.chars, "%i", &count) != 1) {
       fprintf(stderr, "Unable to parse profile report.\n");
+      free(line.chars);
+      FbleFreeProfileThread(thread);
+      FbleFreeProfile(profile);
       FbleFree(squashes.xs);
       return EX_FAIL;
     }
-- 
2.43.0


From 606edc0268f8b1b211c215e57b8e71bcf617f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 12/18] fix: close the profile file in fble-stdio

---
 pkgs/core/stdio.fble.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkgs/core/stdio.fble.c b/pkgs/core/stdio.fble.c
index cd1d1a5..b9180b4 100644
--- a/pkgs/core/stdio.fble.c
+++ b/pkgs/core/stdio.fble.c
@@ -478,6 +478,9 @@ int FbleStdioMain(int argc, const char** argv, FbleGeneratedModule* module)
   if (stdio == NULL) {
     FbleFreeValueHeap(heap);
     FbleFreeProfile(profile);
+    if (fprofile != NULL) {
+      fclose(fprofile);
+    }
     return EX_FAILURE;
   }
 
@@ -500,5 +503,8 @@ int FbleStdioMain(int argc, const char** argv, FbleGeneratedModule* module)
 
   FbleGenerateProfileReport(fprofile, profile);
   FbleFreeProfile(profile);
+  if (fprofile != NULL) {
+    fclose(fprofile);
+  }
   return result;
 }
-- 
2.43.0


From b6a8d9308b85307a920b3b39f80590b08f09d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 13/18] fix: check the interface type of a module, not its
 value, as a type

---
 lib/typecheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 85b823d..cca5a9d 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -2320,7 +2320,7 @@ static Tc TypeCheckModule(FbleTypeHeap* th, FbleLoadedModule* module, FbleType**
 
   FbleType* type = NULL;
   if (module->type) {
-    type = TypeCheckType(th, &scope, module->value);
+    type = TypeCheckType(th, &scope, module->type);
     if (type == NULL) {
       FreeScope(th, &scope);
       return TC_FAILED;
-- 
2.43.0


From 12171de4f69b9173fc5b4ee7286e11e88dec1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 14/18] fix: keep escaped non-ASCII characters of names inside
 their label buffers

A char of 0x80 or more is negative where char is signed, and %02x prints it
as eight digits, beyond the five bytes reserved for it.
---
 lib/aarch64.c | 4 ++--
 lib/c.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 0ef546c..e3cbdec 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1118,7 +1118,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -1172,7 +1172,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
diff --git a/lib/c.c b/lib/c.c
index b8510b5..08f13f9 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -613,7 +613,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -666,7 +666,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
-- 
2.43.0


From 8777b8683a067d25d4fe2a5c794ba2944008b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 15/18] fix: escape names and file names inside generated
 string literals

A quote, backslash or percent sign in a file name, directory name or quoted
function name ended or changed the string literal it was written into, so the
generated C or assembly was rejected or printed the wrong text.
---
 lib/aarch64.c | 45 +++++++++++++++++++++++++++++++--------------
 lib/c.c       |  5 +++--
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index e3cbdec..0784dbf 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -66,6 +66,7 @@ typedef struct {
 static void AddLoc(const char* source, LocV* locs);
 static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code);
 
+static void QuotedString(FILE* fout, const char* string);
 static void StringLit(FILE* fout, const char* string);
 static LabelId StaticString(FILE* fout, LabelId* label_id, const char* string);
 static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
@@ -216,16 +217,16 @@ static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code)
 }
 
 /**
- * @func[StringLit] Declares a string literal.
+ * @func[QuotedString] Outputs a quoted and escaped string.
  *  @arg[FILE*][fout] The file to write to.
  *  @arg[const char*][string] The contents of the string to write.
- *  
+ *
  *  @sideeffects
- *   Adds a .string statement to the output file.
+ *   Outputs the given string in double quotes to the given file.
  */
-static void StringLit(FILE* fout, const char* string)
+static void QuotedString(FILE* fout, const char* string)
 {
-  fprintf(fout, "  .string \"");
+  fprintf(fout, "\"");
   for (const char* p = string; *p; p++) {
     switch (*p) {
       case '\n': fprintf(fout, "\\n"); break;
@@ -234,9 +235,24 @@ static void StringLit(FILE* fout, const char* string)
       default: fprintf(fout, "%c", *p); break;
     }
   }
-  fprintf(fout, "\"\n");
+  fprintf(fout, "\"");
 }
-
+
+/**
+ * @func[StringLit] Declares a string literal.
+ *  @arg[FILE*][fout] The file to write to.
+ *  @arg[const char*][string] The contents of the string to write.
+ *  
+ *  @sideeffects
+ *   Adds a .string statement to the output file.
+ */
+static void StringLit(FILE* fout, const char* string)
+{
+  fprintf(fout, "  .string ");
+  QuotedString(fout, string);
+  fprintf(fout, "\n");
+}
+
 /**
  * @func[StaticString] Outputs code to declare a static FbleString value.
  *  @arg[FILE*][fout] The file to write to
@@ -1194,7 +1210,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
 
   CollectBlocksAndLocs(&blocks, &locs, module->code);
 
-  fprintf(fout, "  .file 1 \"%s\"\n", module->path->loc.source->str);
+  fprintf(fout, "  .file 1 ");
+  QuotedString(fout, module->path->loc.source->str);
+  fprintf(fout, "\n");
 
   // Common things we hold in callee saved registers for Run and Abort
   // functions.
@@ -1228,7 +1246,8 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   for (size_t i = 0; i < locs.size; ++i) {
     char label[SizeofSanitizedString(locs.xs[i])];
     SanitizeString(locs.xs[i], label);
-    fprintf(fout, ".L.loc.%s:\n  .string \"%s\"\n", label, locs.xs[i]);
+    fprintf(fout, ".L.loc.%s:\n", label);
+    StringLit(fout, locs.xs[i]);
   }
 
   fprintf(fout, "  .text\n");
@@ -1262,10 +1281,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   fprintf(fout, "  .uleb128 1\n");       // abbrev code for compile_unit
   fprintf(fout, "  .8byte .L.low_pc\n");  // low_pc value.
   fprintf(fout, "  .8byte .L.high_pc\n"); // high_pc value.
-  fprintf(fout, "  .string \"%s\"\n",    // source file name.
-      module->path->loc.source->str);    
+  StringLit(fout, module->path->loc.source->str); // source file name.
   fprintf(fout, "  .4byte .L.debug_line\n");          // stmt_list offset.
-  fprintf(fout, "  .string \"%s\"\n", cwd); // compilation directory.
+  StringLit(fout, cwd);                 // compilation directory.
   fprintf(fout, "  .string \"FBLE\"\n"); // producer.
 
   // FbleValue* type entry
@@ -1289,8 +1307,7 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
     SanitizeString(function_block.name->str, function_label);
 
     fprintf(fout, "  .uleb128 2\n");       // abbrev code for subprogram.
-    fprintf(fout, "  .string \"%s\"\n",    // source function name.
-        function_block.name->str);
+    StringLit(fout, function_block.name->str); // source function name.
 
     // low_pc and high_pc attributes.
     fprintf(fout, "  .8byte %s.%04zx\n", function_label, func_id);
diff --git a/lib/c.c b/lib/c.c
index 08f13f9..be2f304 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -700,8 +700,9 @@ void FbleGenerateC(FILE* fout, FbleCompiledModule* module)
 
   fprintf(fout, "static void ReportAbort(const char* msg, int line, int col)\n");
   fprintf(fout, "{\n");
-  fprintf(fout, "  fprintf(stderr, \"%s:%%d:%%d: error: %%s\\n\", line, col, msg);\n",
-      module->path->loc.source->str);
+  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", ");
+  StringLit(fout, module->path->loc.source->str);
+  fprintf(fout, ", line, col, msg);\n");
   fprintf(fout, "}\n");
 
   // Generate prototypes for all the run functions.
-- 
2.43.0


From b1691f9a540fd9ca10f64403256b5fcefab8f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:35 +0000
Subject: [PATCH 16/18] fix: set the list of chunks of a new heap's first frame

---
 lib/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index 0c64381..a2a7ebd 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -994,7 +994,7 @@ FbleValueHeap* FbleNewValueHeap()
   Clear(&heap->top->alloced);
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = CHUNK_SIZE + (intptr_t)heap->stack;
-  heap->chunks = NULL;
+  heap->top->chunks = NULL;
 
   heap->gc.min_gen = heap->top->min_gen;
   heap->gc.gen = heap->top->gen;
-- 
2.43.0


From c08ca1ff1c7cbb81c87a4915163538e5e3a19b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 17/18] fix: tail calls of partial and over applications do not
 nest

A tail call to a partially applied function, and a tail call passing more
arguments than the function takes, each used a nested FbleCall to get at the
rest of the work. A loop written that way grew the machine stack and kept
every frame on each iteration. Make the remaining call as a tail call.
---
 lib/value.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index a2a7ebd..eee6d11 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1483,7 +1483,9 @@ static FbleValue* PartialApplyImpl(
   FbleValue* nargs[argc];
   memcpy(nargs, function->statics + 1, s * sizeof(FbleValue*));
   memcpy(nargs + s, args, a * sizeof(FbleValue*));
-  return FbleCall(heap, profile, function->statics[0], argc, nargs);
+
+  FbleFunction* func = FbleFuncValueFunction(function->statics[0]);
+  return FbleTailCall(heap, func, function->statics[0], argc, nargs);
 }
 
 /**
@@ -1572,7 +1574,14 @@ static FbleValue* TailCall(FbleValueHeap* heap, FbleProfileThread* profile)
       memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
       gTailCallData.argc += num_unused;
     } else if (num_unused > 0 && result != NULL) {
-      return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
+      FbleFunction* next = FbleFuncValueFunction(result);
+      if (next == NULL) {
+        // Let FbleCall report that the function is undefined.
+        return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
+      }
+
+      // Apply the result to the unused args next, in place of this call.
+      FbleTailCall(heap, next, result, num_unused, unused);
     } else {
       return FblePopFrame(heap, result);
     }
-- 
2.43.0


From 08a4c25cbebadd6ed13181e79eff566583603c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:40 +0000
Subject: [PATCH 18/18] fix: run an interpreted program's main function in its
 own block

The function that runs the modules of an interpreted program was given block 0,
so profiles counted its calls as calls of <root> by <root> and none of <main>.
A program linked from generated modules already used the block of <main>.
---
 lib/link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/link.c b/lib/link.c
index 7a331f7..b7fb27a 100644
--- a/lib/link.c
+++ b/lib/link.c
@@ -99,7 +99,7 @@ static FbleValue* LinkInterpreted(FbleValueHeap* heap, FbleProfile* profile, Fbl
   FbleAppendToVector(code->instrs, &return_instr->_base);
 
   // Wrap that all up into an FbleFuncValue.
-  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, 0, funcs);
+  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, main_id, funcs);
   FbleFreeCode(code);
   FbleFreeCompiledProgram(compiled);
   return linked;
-- 
2.43.0

