From 012e0ff9dd972877ccfffd2e0092271aebc9d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/56] fix: only use ADD1/SUB1 when the left hand side is an
 int

---
 tiny/src/tiny.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..9d0ba43 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3199,6 +3199,13 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
 }
 
+// Whether the binary expression is (int) op 1, in which case we can use the ADD1/SUB1 opcodes.
+// These only work on integers, so we have to make sure that the left hand side isn't a float.
+static bool IsIntPlusMinusOne(const Tiny_Expr *exp) {
+    return exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+           exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1;
+}
+
 static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
     switch (exp->type) {
         case TINY_EXP_NULL: {
@@ -3282,7 +3289,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusMinusOne(exp)) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3293,7 +3300,7 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (IsIntPlusMinusOne(exp)) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3658,8 +3665,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_PLUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusMinusOne(exp)) {
                                 GenerateCode(state, TINY_OP_ADD1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
@@ -3670,8 +3676,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_MINUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
-                                exp->binary.rhs->iValue == 1) {
+                            if (IsIntPlusMinusOne(exp)) {
                                 GenerateCode(state, TINY_OP_SUB1);
                             } else {
                                 CompileExpr(state, exp->binary.rhs);
-- 
2.43.0


From 4ef87e72caa10f8d3e156100b97faa9e7cd6c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 02/56] fix: read the PUSH_STRING operand with the width it was
 written with

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9d0ba43..a11c582 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From 8914ffb2434e155be9809a8e2eb399508d2b0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 03/56] fix: reject unterminated strings and count newlines
 inside string literals

---
 tiny/src/lexer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..06f0689 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -222,6 +222,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     do {                            \
         if (l->last == '\\') {      \
             l->last = GetChar(l);   \
+            if (l->last == '\n')    \
+                l->lineNumber++;    \
             switch (l->last) {      \
                 case '"':           \
                     l->last = '"';  \
@@ -248,6 +250,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     if (l->last == '\'') {
         l->last = GetChar(l);
 
+        if (l->last == '\n') l->lineNumber++;
+
         CHECK_ESCAPE();
 
         l->iValue = l->last;
@@ -270,8 +274,15 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            if (l->last == '\n') l->lineNumber++;
+
             CHECK_ESCAPE();
 
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From 5f049c0750f5271dd27aaa7906dee082097ae67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 04/56] fix: do not leak parameters and struct fields when
 parsing them fails

---
 tiny/src/tiny.c | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a11c582..c09a194 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -843,15 +843,13 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     return newNode;
 }
 
-// This expects nargs to be known beforehand because arguments are
+// The index of the argument can only be set once nargs is known because arguments are
 // evaluated/pushed left-to-right so the first argument is actually at -nargs
 // position relative to frame pointer We could reverse it, but this works out
 // nicely for Foreign calls since we can just supply a pointer to the initial
 // arg instead of reversing them.
-static Tiny_Symbol *DeclareArgument(Tiny_State *state, const char *name, Tiny_Symbol *tag,
-                                    int nargs) {
+static Tiny_Symbol *DeclareArgument(Tiny_State *state, const char *name) {
     assert(state->currFunc);
-    assert(tag);
 
     for (int i = 0; i < sb_count(state->currFunc->func.args); ++i) {
         Tiny_Symbol *sym = state->currFunc->func.args[i];
@@ -868,9 +866,9 @@ static Tiny_Symbol *DeclareArgument(Tiny_State *state, const char *name, Tiny_Sy
 
     newNode->var.initialized = false;
     newNode->var.scopeEnded = false;
-    newNode->var.index = -nargs + sb_count(state->currFunc->func.args);
+    newNode->var.index = 0;  // Set once all the arguments have been parsed
     newNode->var.scope = 0;  // These should be accessible anywhere in the function
-    newNode->var.tag = tag;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->currFunc->func.args, newNode);
 
@@ -1696,30 +1694,20 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
-        Tiny_Symbol *tag;
-    } Arg;
-
-    Arg *args = NULL;  // array
-
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
-
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
+        // The symbol table owns the argument right away so that nothing leaks if we find an error
+        Tiny_Symbol *arg = DeclareArgument(state, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", arg->name);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, args, arg);
+        arg->var.tag = ParseTypeSL(state);
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1730,12 +1718,11 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
-    }
+    int nargs = sb_count(exp->proc.decl->func.args);
 
-    sb_free(&state->ctx, args);
+    for (int i = 0; i < nargs; ++i) {
+        exp->proc.decl->func.args[i]->var.index = -nargs + i;
+    }
 
     GetNextToken(state);
 
@@ -1798,13 +1785,14 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        // Push it right away so that it isn't leaked if there's an error in the type
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From c7931a126f8bfb7d09c8b78487fb13847c4b5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 05/56] fix: restore the whole state when compilation fails

---
 tiny/src/tiny.c | 71 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c09a194..2c6c9f5 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3965,6 +3965,31 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
 
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
+    int startPCToFileLineLen = sb_count(state->pcToFileLine);
+    Tiny_PCToFileLine startLastRecord = {0};
+
+    if (startPCToFileLineLen > 0) {
+        startLastRecord = sb_last(state->pcToFileLine);
+    }
+
+    int startNumStrings = state->numStrings;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+
+    // Structs which have been referred to (by a bound function) but which aren't defined yet. If
+    // this code defines them and then fails to compile, they have to become undefined again.
+    Tiny_Symbol **undefinedStructs = NULL;  // array
+
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *s = state->globalSymbols[i];
+
+        if (s->type == TINY_SYM_TAG_STRUCT && !s->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, s);
+        }
+    }
 
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
@@ -3982,6 +4007,35 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->globalSymbols) = firstSymIndex;
         }
 
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *s = undefinedStructs[i];
+
+            if (s->type == TINY_SYM_TAG_STRUCT) {
+                for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                    Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+                }
+
+                sb_free(&state->ctx, s->sstruct.fields);
+            }
+
+            s->type = TINY_SYM_TAG_STRUCT;
+            s->sstruct.defined = false;
+            s->sstruct.fields = NULL;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
+        for (int i = startNumStrings; i < state->numStrings; ++i) {
+            TFree(&state->ctx, state->strings[i]);
+        }
+
+        state->numStrings = startNumStrings;
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+
         // TOOD(Apaar): Can we just goto below?
         Tiny_DestroyLexer(&state->l);
         Tiny_DestroyArena(&state->parserArena);
@@ -3989,6 +4043,21 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            // The code compiled before this always ends with a halt, which CompileState might
+            // have overwritten.
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = TINY_OP_HALT;
+            }
+        }
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startPCToFileLineLen;
+
+            // Compiling may also have updated the last record in place
+            if (startPCToFileLineLen > 0) {
+                sb_last(state->pcToFileLine) = startLastRecord;
+            }
         }
 
         state->l = prevLexer;
@@ -4066,6 +4135,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     // Deletes all the parser data in one go, no deletion chores required
     Tiny_DestroyArena(&state->parserArena);
 
+    sb_free(&state->ctx, undefinedStructs);
+
     state->l = prevLexer;
     state->parserArena = prevParserArena;
     --state->compileCallNestCount;
-- 
2.43.0


From 21635354c887add3827e6574190ac28b6c58d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 06/56] fix: report an error for variables used in their own
 initializer

---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2c6c9f5..a7b2157 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -835,6 +835,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
     newNode->var.scopeEnded = false;
+    newNode->var.tag = NULL;  // Not known until the initializer has been resolved
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
 
@@ -897,6 +898,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
+    newNode->var.tag = NULL;  // Not known until the initializer has been resolved
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
 
@@ -2516,7 +2518,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Variable '%s' is used in its own initializer.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From 786116c6ad69a122a3b3e813c37ef749e61a4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 07/56] fix: reject calls with too few arguments

---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a7b2157..2e7ca50 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3092,6 +3092,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 639300fbde87eb8362ad8594b7f9768406c0861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 08/56] fix: report an error for uses of a struct which is
 never defined

---
 tiny/src/tiny.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2e7ca50..884619c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2856,6 +2856,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2865,7 +2870,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            // A bound function may refer to a struct which is never defined
+            if (!exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From e052aa5d69781452bde32f027491e82d56ace09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 09/56] fix: reject constructors which do not initialize every
 field exactly once

---
 tiny/src/tiny.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 884619c..cd1aa59 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1932,6 +1932,8 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
 
             GetNextToken(state);
 
+            ExpectTokenSL(state, TINY_TOK_IDENT, "Expected struct name after 'new'");
+
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
             exp->constructor.structTag = tag;
@@ -2901,6 +2903,15 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 if (exp->constructor.argNamesHead) {
                     bool found = false;
 
+                    for (Tiny_StringNode *prev = exp->constructor.argNamesHead; prev != nameNode;
+                         prev = prev->next) {
+                        if (strcmp(prev->value, nameNode->value) == 0) {
+                            ReportErrorE(state, argNode,
+                                         "Designated initializer .%s appears more than once",
+                                         nameNode->value);
+                        }
+                    }
+
                     for (int j = 0; j < tagCount; ++j) {
                         Tiny_Symbol *expectedField = exp->constructor.structTag->sstruct.fields[j];
                         assert(expectedField->type == TINY_SYM_FIELD);
@@ -2948,6 +2959,12 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
             }
 
+            if (i != tagCount || nameNode) {
+                ReportErrorE(state, exp,
+                             "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From 650b263053cf14cdc1464507bd255e0a12b35a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 10/56] fix: check the operand types of compound assignments

---
 tiny/src/tiny.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index cd1aa59..be8da33 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2723,6 +2723,26 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        bool isInt = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                                     exp->binary.rhs->tag->type == TINY_SYM_TAG_INT;
+                        bool isFloat = exp->binary.lhs->tag->type == TINY_SYM_TAG_FLOAT &&
+                                       exp->binary.rhs->tag->type == TINY_SYM_TAG_FLOAT;
+                        bool needsInt = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                        exp->binary.op == TINY_TOK_OREQUAL ||
+                                        exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        if (!isInt && (needsInt || !isFloat)) {
+                            ReportErrorE(
+                                state, exp,
+                                "Both sides of compound assignment must be %s, but they're %s "
+                                "and %s",
+                                needsInt ? "ints" : "ints or floats",
+                                GetTagName(exp->binary.lhs->tag),
+                                GetTagName(exp->binary.rhs->tag));
+                        }
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
-- 
2.43.0


From fa31f4233ab06b6e0151a2996006a72d976af798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 11/56] fix: reject break and continue outside of loops

---
 tiny/src/tiny.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index be8da33..4acb603 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3839,6 +3839,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+
+                // Whatever isn't inside a loop is an error
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3899,6 +3902,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
         } break;
 
@@ -3931,6 +3936,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+
+        // Whatever isn't inside a loop is an error
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From 2ae00501bbdf9e73b0ca58768ffb5d3881e57799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 12/56] fix: pass strings instead of string nodes to the error
 formatter

---
 tiny/src/tiny.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4acb603..fbeb775 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2552,7 +2552,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3154,7 +3154,8 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n",
+                         exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3232,14 +3233,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3769,7 +3770,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3781,7 +3782,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From 42d1b7b359b63319473ccb704cc7bc7664f7fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 13/56] fix: terminate when marking cyclic data

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fbeb775..52ce169 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark it before recursing so that we terminate if it (indirectly) refers to itself
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From d52e9e402b99d2e35593802ac532403465dbd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 14/56] fix: keep the saved return value alive during
 Tiny_CallFunction

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 52ce169..7d4d01e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -596,6 +596,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // The stack is a GC root, so this keeps the return value we'll restore alive
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From 04bdf758655228cff00177807c197d98d1084f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 15/56] fix: disassemble shift instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7d4d01e..a6884ea 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4373,6 +4373,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 5ba135a2608a080547d7d5271b31ec15dc70015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 16/56] fix: do not truncate integers to 32 bits

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a6884ea..c66fa4a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -354,7 +354,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
@@ -429,7 +429,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From bcc2139511bb2c4b19bf70e14cee787a5e4f6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 17/56] fix: keep the full range and precision of number
 literals

---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 06f0689..901e84f 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = strtod(l->lexeme, NULL);
         } else if (isHex) {
-            int64_t value = strtoll(l->lexeme, NULL, 16);
-
-            l->iValue = (int)value;
+            l->iValue = strtoll(l->lexeme, NULL, 16);
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From cd0abdb9802a9e3b867cd3f4d148437e37f68236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 18/56] fix: compare all the bytes of strings which contain
 null bytes

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c66fa4a..f1afdee 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -242,7 +242,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -257,7 +257,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From 796c13e5124e7dacd2e6dc78b9585bd3c25eb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 19/56] fix: check the argument types of the index operator

---
 tiny/src/tiny.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f1afdee..a7f9a2e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2485,6 +2485,31 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// Makes sure that the function which implements the index operator can be called with the given
+// types of arguments.
+static void CheckIndexFunc(Tiny_State *state, const Tiny_Expr *exp, const Tiny_Symbol *fn,
+                           Tiny_Symbol *const *tags, int count) {
+    bool foreign = fn->type == TINY_SYM_FOREIGN_FUNCTION;
+
+    int argc = foreign ? sb_count(fn->foreignFunc.argTags) : sb_count(fn->func.args);
+
+    if (count < argc || (count > argc && !(foreign && fn->foreignFunc.varargs))) {
+        ReportErrorE(state, exp, "Function '%s' expects %d args but the index operator supplies %d",
+                     fn->name, argc, count);
+    }
+
+    for (int i = 0; i < argc; ++i) {
+        const Tiny_Symbol *expectedTag =
+            foreign ? fn->foreignFunc.argTags[i] : fn->func.args[i]->var.tag;
+
+        if (!IsTagAssignableTo(tags[i], expectedTag)) {
+            ReportErrorE(state, exp,
+                         "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                         i + 1, fn->name, GetTagName(expectedTag), GetTagName(tags[i]));
+        }
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2727,6 +2752,16 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        Tiny_Symbol *setIndexArgs[] = {exp->binary.lhs->index.arr->tag,
+                                                       exp->binary.lhs->index.elem->tag,
+                                                       exp->binary.rhs->tag};
+
+                        CheckIndexFunc(state, exp, exp->binary.lhs->index.setIndexFunc,
+                                       setIndexArgs, 3);
+                    }
+
                     if (exp->binary.op != TINY_TOK_EQUAL) {
                         bool isInt = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
                                      exp->binary.rhs->tag->type == TINY_SYM_TAG_INT;
@@ -3060,8 +3095,9 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            Tiny_Symbol *getIndexArgs[] = {exp->index.arr->tag, exp->index.elem->tag};
+
+            CheckIndexFunc(state, exp, getIndexFunc, getIndexArgs, 2);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From ac4f0a0790c2509b724dbd86ae7d9a001efa4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 20/56] fix: use the length of strings which contain null bytes
 in strlen and stridx

---
 tiny/src/std.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..f3de120 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,16 +45,16 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
-    int i = Tiny_ToInt(args[1]);
+    Tiny_Int i = Tiny_ToInt(args[1]);
 
-    assert(i >= 0 && i < len);
+    assert(i >= 0 && i < (Tiny_Int)len);
 
     return Tiny_NewInt(s[i]);
 }
-- 
2.43.0


From 643f3377880797896808e999dbe562a71542bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 21/56] fix: read and write strings which contain null bytes,
 and never past their end

---
 tiny/src/std.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f3de120..becbaa9 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,9 +131,18 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    size_t len = Tiny_StringLen(args[1]);
 
-    return Tiny_NewInt(fwrite(str, 1, num, file));
+    if (count == 3) {
+        Tiny_Float num = Tiny_ToNumber(args[2]);
+
+        // Never write past the end of the string
+        if (num < (Tiny_Float)len) {
+            len = num > 0 ? (size_t)num : 0;
+        }
+    }
+
+    return Tiny_NewInt(fwrite(str, 1, len, file));
 }
 
 static Tiny_Value Lib_Fclose(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
@@ -156,7 +165,7 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
     rewind(file);
 
     char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
-    fread(s, 1, len, file);
+    len = fread(s, 1, len, file);
 
     s[len] = '\0';
 
@@ -174,7 +183,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
-- 
2.43.0


From 454816fa6445ced2c113cdadfa75f4dc6ea0a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 22/56] fix: stop reading input at the end of the file

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index becbaa9..83de8f0 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -572,7 +572,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From 4f97a6a449f648091c69baef892286c5858d8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 23/56] fix: print percent signs, bools and null bytes in
 printf

---
 tiny/src/std.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 83de8f0..667ab24 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -596,6 +596,9 @@ static void Print(Tiny_Value val, bool repr) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf(val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
             printf("%lld", (int64_t)val.i);
             break;
@@ -610,11 +613,9 @@ static void Print(Tiny_Value val, bool repr) {
             }
             break;
         case TINY_VAL_STRING:
-            if (repr) {
-                printf("\"%.*s\"", (int)val.obj->string.len, val.obj->string.ptr);
-            } else {
-                printf("%.*s", (int)val.obj->string.len, val.obj->string.ptr);
-            }
+            if (repr) putc('"', stdout);
+            fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
+            if (repr) putc('"', stdout);
             break;
         case TINY_VAL_LIGHT_NATIVE:
             printf("<light native at %p>", val.addr);
@@ -666,7 +667,10 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
     int arg = 1;
 
     while (*fmt) {
-        if (*fmt == '%') {
+        if (*fmt == '%' && fmt[1] == '%') {
+            putc('%', stdout);
+            fmt += 2;
+        } else if (*fmt == '%' && fmt[1]) {
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -681,7 +685,9 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                     printf("%f", args[arg].f);
                     break;
                 case 's':
-                    printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
+                    if (Tiny_ToString(args[arg])) {
+                        fwrite(Tiny_ToString(args[arg]), 1, Tiny_StringLen(args[arg]), stdout);
+                    }
                     break;
                 case 'c':
                     printf("%c", (char)args[arg].i);
@@ -690,9 +696,6 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-- 
2.43.0


From 55610f6f1f12701ca371f1c030eb529e8602d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 24/56] fix: keep the full range and precision of numbers in
 the standard library

---
 tiny/src/std.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 667ab24..cde56b4 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -515,22 +515,20 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
 static Tiny_Value Lib_Ston(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    float value = strtof(str, NULL);
+    Tiny_Float value = strtod(str, NULL);
 
     return Tiny_NewFloat(value);
 }
 
 static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    int base = count > 1 ? Tiny_ToInt(args[1]) : 10;
+    int base = count > 1 ? (int)Tiny_ToInt(args[1]) : 10;
 
-    long value = strtol(str, NULL, base);
-
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt(strtoll(str, NULL, base));
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    float num = Tiny_ToNumber(args[0]);
+    Tiny_Float num = Tiny_ToNumber(args[0]);
 
     char buf[32];
 
@@ -717,11 +715,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 21d51c31b6b3f68806f2e40afde2d0948fbefdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 25/56] fix: compare the whole of the ints when sorting arrays

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index cde56b4..2b8463b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -333,7 +333,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From 112baf3aa40c8069f093f9ae1743a609cea671d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 26/56] fix: allow clearing and resizing arrays which never
 held an element

---
 tiny/src/array.c | 8 +++++---
 tiny/src/std.c   | 2 --
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..48c73fa 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -15,12 +15,14 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
     InitArray(array, ctx);
 
     Tiny_Value *values = sb_add(&ctx, array->data, length);
-    memcpy(values, initValues, sizeof(Tiny_Value) * length);
+    if (length > 0) memcpy(values, initValues, sizeof(Tiny_Value) * length);
 }
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
diff --git a/tiny/src/std.c b/tiny/src/std.c
index 2b8463b..cdf03f4 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -223,8 +223,6 @@ static Tiny_Value CreateArrayEx(Tiny_StateThread *thread, int count, const Tiny_
 
     InitArrayEx(array, thread->ctx, count, values);
 
-    memcpy(array->data, values, sizeof(Tiny_Value) * count);
-
     return Tiny_NewNative(thread, array, primitive ? &PrimitiveArrayProp : &ArrayProp);
 }
 
-- 
2.43.0


From 503f9fcc0bd2e520f80c157863499105cdb9e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 27/56] fix: escape strings and keep whole ints in JSON

---
 tiny/src/std.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index cdf03f4..73ea3fb 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1013,15 +1013,37 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
         case TINY_VAL_FLOAT:
-        case TINY_VAL_INT:
             return Lib_Ntos(thread, args, count);
+        case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
-            // TODO(Apaar): Escape args[0] string
-            Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
-                                        Tiny_NewConstString("\"")};
+            const char *s = Tiny_ToString(args[0]);
+            size_t len = Tiny_StringLen(args[0]);
+
+            // At worst every character is written as \u00XX
+            char *buf = Tiny_AllocUsingContext(thread->ctx, NULL, len * 6 + 3);
+            size_t used = 0;
+
+            buf[used++] = '"';
+
+            for (size_t i = 0; i < len; ++i) {
+                unsigned char c = (unsigned char)s[i];
+
+                if (c == '"' || c == '\\') {
+                    buf[used++] = '\\';
+                    buf[used++] = (char)c;
+                } else if (c < 0x20) {
+                    used += sprintf(buf + used, "\\u%04x", c);
+                } else {
+                    buf[used++] = (char)c;
+                }
+            }
+
+            buf[used++] = '"';
+            buf[used] = '\0';
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Tiny_NewString(thread, buf, used);
         } break;
 
         default:
-- 
2.43.0


From da087677aabdc8fbb8ac6e6da736c7924a1d1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 28/56] fix: generate JSON serializers for recursive and large
 structs and report failures

---
 tiny/src/std.c | 117 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 33 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 73ea3fb..a333798 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <limits.h>
 #include <math.h>
+#include <stdarg.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -776,53 +778,102 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
-    if (sym->type == TINY_SYM_TAG_FOREIGN) {
-        // For foreign types, it's up to the calling code to set up an appropriate serializer.
-        // We can't do it automatically.
-        //
-        // e.g. If there was an array_str, then this assumes there's an "array_str_to_json".
-        //
-        // Basically %s_to_json
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-    }
+// Appends the formatted string to *buf, which grows as necessary.
+static void JsonAppend(Tiny_Context *ctx, char **buf, size_t *used, size_t *cap, const char *fmt,
+                       ...) {
+    va_list args;
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
-        // It's a primitive type, we've already defined functions for all the types below.
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    va_start(args, fmt);
+    size_t len = (size_t)vsnprintf(NULL, 0, fmt, args);
+    va_end(args);
+
+    if (*used + len + 1 > *cap) {
+        *cap = (*used + len + 1) * 2;
+        *buf = Tiny_AllocUsingContext(*ctx, *buf, *cap);
     }
 
-    // Hopefully enough lol?
-    char buf[2048] = {0};
-    int used = 0;
+    va_start(args, fmt);
+    vsnprintf(*buf + *used, *cap - *used, fmt, args);
+    va_end(args);
 
-    snprintf(buf, sizeof(buf), "%s_to_json", sym->name);
+    *used += len;
+}
+
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+    // For foreign types, it's up to the calling code to set up an appropriate serializer.
+    // We can't do it automatically.
+    //
+    // e.g. If there was an array_str, then this assumes there's an "array_str_to_json".
+    //
+    // Basically %s_to_json
+    //
+    // For primitive types, we've already defined the functions.
+    //
+    // So we only generate code for the struct and all the structs it refers to. They are compiled
+    // together because they might refer to each other.
+    Tiny_Context *ctx = &state->ctx;
+
+    const Tiny_Symbol **structs = Tiny_AllocUsingContext(*ctx, NULL, sizeof(*structs));
+    int structCount = 1;
+
+    structs[0] = sym;
+
+    char *buf = NULL;
+    size_t used = 0;
+    size_t cap = 0;
+
+    for (int s = 0; s < structCount; ++s) {
+        const Tiny_Symbol *cur = structs[s];
+
+        // Use the end of the buffer for the name
+        size_t start = used;
+        JsonAppend(ctx, &buf, &used, &cap, "%s_to_json", cur->name);
+        used = start;
 
-    if (Tiny_FindFuncSymbol(state, buf)) {
         // Already bound, don't bother
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-    }
+        bool bound = Tiny_FindFuncSymbol(state, buf + start) != NULL;
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+        buf[start] = '\0';
 
-    for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
-        if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
+        if (bound) {
+            continue;
         }
 
-        const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
+        JsonAppend(ctx, &buf, &used, &cap,
+                   "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t", cur->name,
+                   cur->name);
+
+        for (int i = 0; i < Tiny_SymbolArrayCount(cur->sstruct.fields); ++i) {
+            const Tiny_Symbol *fieldSym = cur->sstruct.fields[i];
+            const Tiny_Symbol *tag = fieldSym->fieldTag;
+
+            if (tag->type == TINY_SYM_TAG_STRUCT) {
+                int k = 0;
+
+                while (k < structCount && structs[k] != tag) ++k;
+
+                if (k == structCount) {
+                    structs = Tiny_AllocUsingContext(*ctx, structs,
+                                                     sizeof(*structs) * (structCount + 1));
+                    structs[structCount++] = tag;
+                }
+            }
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+            JsonAppend(ctx, &buf, &used, &cap, "%s\"\\\"%s\\\":\", %s_to_json(v.%s)",
+                       i > 0 ? ", \",\",\n\t\t" : "", fieldSym->name, tag->name, fieldSym->name);
+        }
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
-                         fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
+        JsonAppend(ctx, &buf, &used, &cap, ",\n\t\"}\")\n}\n");
     }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+    Tiny_CompileResult compileResult = {.type = TINY_COMPILE_SUCCESS};
+
+    if (used > 0) {
+        compileResult = Tiny_CompileString(state, "(json mod)", buf);
+    }
 
-    Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
+    Tiny_AllocUsingContext(*ctx, buf, 0);
+    Tiny_AllocUsingContext(*ctx, structs, 0);
 
     if (compileResult.type != TINY_COMPILE_SUCCESS) {
         Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
@@ -846,7 +897,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
-- 
2.43.0


From 1d089a41f39e3fa11ecc67ce752726561ffc1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 29/56] fix: bind the array functions for types which were only
 registered

---
 tiny/src/std.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a333798..f9d8141 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -923,7 +923,11 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
     }
 
     const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
-    if (alreadyExists) {
+
+    // The type might have been registered without its functions (e.g. array_str by the standard
+    // dict), in which case we still have to bind those
+    if (alreadyExists && (alreadyExists->type != TINY_SYM_TAG_FOREIGN ||
+                          Tiny_FindFuncSymbol(state, asName))) {
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
@@ -936,7 +940,9 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
+    if (!alreadyExists) {
+        Tiny_RegisterType(state, asName);
+    }
 
     char sigbuf[512] = {0};
 
-- 
2.43.0


From 5e8ce5cd4026031ff4c8c9259b440e914299cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 30/56] fix: reject macros with more arguments than fit the
 argument array

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a7f9a2e..fd8e4a0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4195,9 +4195,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= (int)(sizeof(args) / sizeof(args[0]))) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From 50eb57467ceeb4ddb715a1c3a7d962415639834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 31/56] fix: generate delegates for every kind of function and
 report failures

---
 tiny/src/std.c | 122 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 105 insertions(+), 17 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f9d8141..521ffa4 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1109,6 +1109,15 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+static Tiny_MacroResult DelegateCompileError(const Tiny_CompileResult *result) {
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+    snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+             "Failed to compile delegate code: %s", result->error.msg);
+
+    return macroResult;
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1124,22 +1133,36 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
+    // A function has at most 255 arguments, but all of the text has to fit
+    static const Tiny_MacroResult tooLong = {
+        .type = TINY_MACRO_ERROR,
+        .error.msg = "The signature of the function given to 'use delegate' is too long",
+    };
+
     char typeBuf[512] = {0};
     char argsBuf[512] = {0};
     char paramsBuf[512] = {0};
 
-    int typeUsed = 0;
-    int argsUsed = 0;
-    int paramsUsed = 0;
+    size_t typeUsed = 0;
+    size_t argsUsed = 0;
+    size_t paramsUsed = 0;
 
     typeUsed += snprintf(typeBuf, sizeof(typeBuf), "delegate_");
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
-    for (int i = 0;
-         i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
-                                                                   : func->foreignFunc.argTags);
-         ++i) {
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified to 'use delegate' does not exist",
+        };
+    }
+
+    int argCount = Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION
+                                             ? func->func.args
+                                             : func->foreignFunc.argTags);
+
+    for (int i = 0; i < argCount; ++i) {
         if (i > 0) {
             typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
             argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
@@ -1153,6 +1176,11 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         argsUsed +=
             snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
         paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+
+        if (typeUsed >= sizeof(typeBuf) || argsUsed >= sizeof(argsBuf) ||
+            paramsUsed >= sizeof(paramsBuf)) {
+            return tooLong;
+        }
     }
 
     const Tiny_Symbol *returnTag =
@@ -1162,30 +1190,90 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
 
+    if (typeUsed >= sizeof(typeBuf)) {
+        return tooLong;
+    }
+
+    // Nullable types have a '?' in their name
+    for (char *c = typeBuf; *c; ++c) {
+        if (*c == '?') *c = '_';
+    }
+
+    // Large enough for all of the above
+    char codeBuf[4096] = {0};
+
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
 
-        char callBuf[512] = {0};
-
         if (returnTag->type != TINY_SYM_TAG_VOID) {
-            snprintf(callBuf, sizeof(callBuf),
+            snprintf(codeBuf, sizeof(codeBuf),
                      "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
                      typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
         } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
+            snprintf(codeBuf, sizeof(codeBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
                      typeBuf, typeBuf, argsBuf, paramsBuf);
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        Tiny_CompileResult result =
+            Tiny_CompileString(state, "(delegate call function)", codeBuf);
+
+        if (result.type != TINY_COMPILE_SUCCESS) {
+            return DelegateCompileError(&result);
+        }
+    } else {
+        // Different signatures can end up with the same name (e.g. "a_b", "c" and "a", "b_c")
+        snprintf(codeBuf, sizeof(codeBuf), "%s_call", typeBuf);
+
+        const Tiny_Symbol *call = Tiny_FindFuncSymbol(state, codeBuf);
+
+        bool same = call && call->type == TINY_SYM_FUNCTION &&
+                    Tiny_SymbolArrayCount(call->func.args) == argCount + 1 &&
+                    strcmp(call->func.returnTag->name, returnTagName) == 0;
+
+        for (int i = 0; same && i < argCount; ++i) {
+            const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION
+                                            ? func->func.args[i]->var.tag
+                                            : func->foreignFunc.argTags[i];
+
+            same = strcmp(call->func.args[i + 1]->var.tag->name, argTag->name) == 0;
+        }
+
+        if (!same) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "There is already a different type with the name of the delegate",
+            };
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
-        snprintf(createBuf, sizeof(createBuf),
-                 "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
-                 args[0], typeBuf);
+        int used = 0;
+
+        if (func->type == TINY_SYM_FUNCTION) {
+            used = snprintf(codeBuf, sizeof(codeBuf),
+                            "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName,
+                            typeBuf, args[0], typeBuf);
+        } else {
+            // Only functions which are written in Tiny have an index
+            used = snprintf(codeBuf, sizeof(codeBuf),
+                            "func %s_target(%s)%s%s { %s%s(%s) }\n"
+                            "func %s(): %s { return cast(get_function_index(\"%s_target\"), %s) }",
+                            asName, argsBuf, returnTag->type != TINY_SYM_TAG_VOID ? ": " : "",
+                            returnTag->type != TINY_SYM_TAG_VOID ? returnTagName : "",
+                            returnTag->type != TINY_SYM_TAG_VOID ? "return " : "", args[0],
+                            paramsBuf, asName, typeBuf, asName, typeBuf);
+        }
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        if (used >= (int)sizeof(codeBuf)) {
+            return tooLong;
+        }
+
+        Tiny_CompileResult result =
+            Tiny_CompileString(state, "(delegate create function)", codeBuf);
+
+        if (result.type != TINY_COMPILE_SUCCESS) {
+            return DelegateCompileError(&result);
+        }
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 062770373ba4f546a27c63e16166cebe3af900e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 32/56] fix: report errors on the line of the offending token

---
 tiny/include/lexer.h |  3 +++
 tiny/src/lexer.c     |  4 ++++
 tiny/src/tiny.c      | 20 ++++++++++++++------
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index ae10e84..cf291e0 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -15,6 +15,9 @@ typedef struct {
     int lineNumber;
     Tiny_TokenPos pos;
 
+    // Where the current token starts
+    Tiny_TokenPos tokPos;
+
     int last;
     char *lexeme;  // array
 
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 901e84f..7fa5aad 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -34,6 +34,7 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 
     l->lineNumber = 1;
     l->pos = 0;
+    l->tokPos = 0;
 
     l->last = ' ';
     l->lexeme = NULL;
@@ -47,6 +48,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
     }
 
+    // If there is a character in l->last, then the position is already past it
+    l->tokPos = l->last ? l->pos - 1 : l->pos;
+
     if (l->last == 0) {
         return TINY_TOK_EOF;
     }
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fd8e4a0..ca961ea 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -63,7 +63,7 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
-                      state->l.pos, s, args);
+                      state->l.tokPos, s, args);
 
     va_end(args);
 
@@ -726,7 +726,7 @@ static Tiny_Symbol *Symbol_create(Tiny_SymbolType type, const char *name, Tiny_S
 
     sym->name = CloneString(&state->ctx, name);
     sym->type = type;
-    sym->pos = state->l.pos;
+    sym->pos = state->l.tokPos;
 
     return sym;
 }
@@ -1449,7 +1449,7 @@ static Tiny_Expr *Expr_create(Tiny_ExprType type, Tiny_State *state) {
     Tiny_Expr *exp = Tiny_ArenaAlloc(&state->parserArena, sizeof(Tiny_Expr), sizeof(void *));
 
     exp->next = NULL;
-    exp->pos = state->l.pos;
+    exp->pos = state->l.tokPos;
     exp->lineNumber = state->l.lineNumber;
     exp->type = type;
 
@@ -1756,7 +1756,7 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
                       state->currFunc->name);
     }
 
-    Tiny_TokenPos pos = state->l.pos;
+    Tiny_TokenPos pos = state->l.tokPos;
 
     GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'struct'.");
 
@@ -1859,7 +1859,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         } break;
 
         case TINY_TOK_IDENT: {
-            Tiny_TokenPos pos = state->l.pos;
+            Tiny_TokenPos pos = state->l.tokPos;
             int lineNumber = state->l.lineNumber;
 
             Tiny_StringNode *ident = CreateExprStringNode(state, state->l.lexeme);
@@ -1927,6 +1927,10 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
             GetNextToken(state);
 
             Tiny_Expr *exp = Expr_create(TINY_EXP_PAREN, state);
+
+            exp->lineNumber = inner->lineNumber;
+            exp->pos = inner->pos;
+
             exp->paren = inner;
             return exp;
         } break;
@@ -2177,6 +2181,10 @@ static Tiny_Expr *ParseBinRhs(Tiny_State *state, int exprPrec, Tiny_Expr *lhs) {
 
         Tiny_Expr *newLhs = Expr_create(TINY_EXP_BINARY, state);
 
+        // The current token is already past this expression
+        newLhs->lineNumber = lhs->lineNumber;
+        newLhs->pos = lhs->pos;
+
         newLhs->binary.lhs = lhs;
         newLhs->binary.rhs = rhs;
         newLhs->binary.op = binOp;
@@ -2357,7 +2365,7 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
             int op = state->l.lastTok;
 
             int lineNumber = state->l.lineNumber;
-            Tiny_TokenPos pos = state->l.pos;
+            Tiny_TokenPos pos = state->l.tokPos;
 
             if (state->l.lastTok == TINY_TOK_DECLARE || state->l.lastTok == TINY_TOK_COLON) {
                 if (lhs->type != TINY_EXP_ID) {
-- 
2.43.0


From 700d2317e132b470c8f8c9f8267d089395e4d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 33/56] fix: leave room for the error when the lines around it
 are long

---
 tiny/src/util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..b02a5eb 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -63,6 +63,9 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
         int lineNumber = Tiny_TranslatePosToLineNumber(src, pos);
         int curLine = 1;
 
+        // Leave room for the actual error
+        size_t contextSize = bufsize / 2;
+
         // Print nearest 3 lines
         while (*src) {
             if (abs(lineNumber - curLine) <= 3) {
@@ -73,7 +76,10 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
                 }
 
                 while (*src && *src != '\n') {
-                    APPEND("%c", *src);
+                    if (used < contextSize) {
+                        APPEND("%c", *src);
+                    }
+
                     src += 1;
                 }
 
-- 
2.43.0


From d897bb7c3fe38c54f37ce12a95ff518101cba91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 34/56] fix: print the elements of arrays of primitive values

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 521ffa4..b7bf76c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -619,7 +619,8 @@ static void Print(Tiny_Value val, bool repr) {
             printf("<light native at %p>", val.addr);
             break;
         case TINY_VAL_NATIVE: {
-            if (repr && val.obj->nat.prop == &ArrayProp) {
+            if (repr && (val.obj->nat.prop == &ArrayProp ||
+                         val.obj->nat.prop == &PrimitiveArrayProp)) {
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
-- 
2.43.0


From fb31d1377a2b6bb0d426a14fdd887772c47f7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 35/56] fix: fill the new elements when resizing an array which
 has elements

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 48c73fa..173fe97 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -32,7 +32,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     if (newLen > len) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
-        for (int i = len; i < newLen; ++i) {
+        for (int i = 0; i < newLen - len; ++i) {
             newValues[i] = newValue;
         }
     } else if (array->data) {
-- 
2.43.0


From a34c74d6d02de28a3d91e191aa0489b86b1d2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 36/56] fix: allow assigning a nullable to a variable of the
 same nullable type

---
 tiny/src/tiny.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ca961ea..6f23848 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2483,7 +2483,8 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     }
 
     if (dest->type == TINY_SYM_TAG_NULLABLE) {
-        return IsTagAssignableTo(src, dest->nullableTag);
+        return IsTagAssignableTo(src->type == TINY_SYM_TAG_NULLABLE ? src->nullableTag : src,
+                                 dest->nullableTag);
     }
 
     if (src->type == dest->type) {
-- 
2.43.0


From 1650fccfeb1f888cf46277de3260367884594f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 37/56] fix: terminate the lexeme of unterminated strings

---
 tiny/src/lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 7fa5aad..7436cce 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -281,6 +281,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
             CHECK_ESCAPE();
 
             if (l->last == 0) {
+                // The lexeme might be part of an error message
+                sb_push(&l->ctx, l->lexeme, 0);
                 l->errorMsg = "Expected \" to close previous \".";
                 return TINY_TOK_LEXER_ERROR;
             }
-- 
2.43.0


From 87b4c3bfff8b25c09985354d13bf270d5056e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 38/56] fix: report too many strings as a compile error

---
 tiny/src/tiny.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 6f23848..2064cd4 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -698,7 +698,11 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
-    assert(state->numStrings < MAX_STRINGS);
+    if (state->numStrings >= MAX_STRINGS) {
+        assert(state->compileCallNestCount > 0);
+        ReportErrorSL(state, "Too many different strings (the limit is %d).", MAX_STRINGS);
+    }
+
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
     return state->numStrings - 1;
-- 
2.43.0


From a9ba58358a586e78cc24d339ee8acfaecbb44083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 39/56] fix: reject array types whose functions already exist
 or have too long names

---
 tiny/src/std.c | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b7bf76c..f300a6f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -941,12 +941,49 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
+    char sigbuf[512] = {0};
+
+    // The longest signature has the name twice and the element type once
+    if (strlen(asName) * 2 + strlen(args[0]) + sizeof("_resize_fill(, int, ): void") >
+        sizeof(sigbuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The names given to 'use array' are too long",
+        };
+    }
+
+    static const char *const suffixes[] = {
+        "",           "_clear", "_resize", "_resize_fill", "_get",   "_get_index", "_set",
+        "_set_index", "_len",   "_push",   "_pop",         "_shift", "_remove",    "_insert",
+        "_sort",  // only for ints
+    };
+
+    int numSuffixes = (int)(sizeof(suffixes) / sizeof(suffixes[0]));
+
+    if (elemType->type != TINY_SYM_TAG_INT) {
+        --numSuffixes;
+    }
+
+    for (int i = 0; i < numSuffixes; ++i) {
+        snprintf(sigbuf, sizeof(sigbuf), "%s%s", asName, suffixes[i]);
+
+        for (int j = 0; j < (int)Tiny_SymbolArrayCount(state->globalSymbols); ++j) {
+            const Tiny_Symbol *s = state->globalSymbols[j];
+
+            if (s->type == TINY_SYM_FOREIGN_FUNCTION && strcmp(s->name, sigbuf) == 0) {
+                return (Tiny_MacroResult){
+                    .type = TINY_MACRO_ERROR,
+                    .error.msg = "There is already a function with the name of one of the "
+                                 "functions of the array",
+                };
+            }
+        }
+    }
+
     if (!alreadyExists) {
         Tiny_RegisterType(state, asName);
     }
 
-    char sigbuf[512] = {0};
-
     bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
                      elemType->type == TINY_SYM_TAG_FLOAT;
 
-- 
2.43.0


From 5a2088eb308f916e8c6656a14dedae4be6b6e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 40/56] fix: report misplaced breaks and empty structs at their
 own line

---
 tiny/src/tiny.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2064cd4..a87d6cf 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1805,12 +1805,12 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
         f->fieldTag = ParseTypeSL(state);
     }
 
-    GetNextToken(state);
-
     if (!s->sstruct.fields) {
         ReportErrorSL(state, "Struct must have at least one field.\n");
     }
 
+    GetNextToken(state);
+
     return s;
 }
 
@@ -2285,9 +2285,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
 
         // TODO(Apaar): Labeled break/continue
         case TINY_TOK_BREAK: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_BREAK, state);
 
+            GetNextToken(state);
+
             // Set to -1 to make sure we don't get into trouble
             exp->breakContinue.patchLoc = -1;
 
-- 
2.43.0


From 439cf916e230f29bf69101b8303ad46d00cb3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 41/56] fix: report errors in constant declarations at their
 own line

---
 tiny/src/tiny.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a87d6cf..c0709b6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2407,6 +2407,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
                     ReportErrorSL(state, "Left hand side of declaration must be identifier.");
                 }
 
+                // The lexer is past the declaration already, but errors are about the declaration
+                Tiny_TokenPos nextPos = state->l.tokPos;
+                state->l.tokPos = pos;
+
                 if (rhs->type == TINY_EXP_BOOL) {
                     DeclareConst(state, lhs->id.name->value, GetPrimTag(TINY_SYM_TAG_BOOL))
                         ->constant.bValue = rhs->boolean;
@@ -2426,6 +2430,8 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
                     ReportErrorSL(state, "Expected number or string to be bound to constant '%s'.",
                                   lhs->id.name->value);
                 }
+
+                state->l.tokPos = nextPos;
             }
 
             Tiny_Expr *bin = Expr_create(TINY_EXP_BINARY, state);
-- 
2.43.0


From 9f58c7ca604d882398e46460875188c79c1405a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 42/56] fix: report the line of the calling statement while a
 bound function runs

---
 tiny/include/tiny.h |  4 ++++
 tiny/src/tiny.c     | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 8b56fb6..0e4e484 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -158,6 +158,10 @@ typedef struct Tiny_StateThread {
     Tiny_Value *globalVars;
 
     int pc, fp, sp;
+
+    // The pc of the foreign function call being executed, or -1
+    int foreignPc;
+
     Tiny_Value retVal;
 
     Tiny_Value stack[TINY_THREAD_STACK_SIZE];
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c0709b6..e35bd0e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -508,6 +508,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->globalVars = NULL;
 
     thread->pc = -1;
+    thread->foreignPc = -1;
     thread->fp = thread->sp = 0;
 
     thread->retVal = Tiny_Null;
@@ -1398,12 +1399,15 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         } break;
 
         case TINY_OP_CALLF: {
+            int prevForeignPc = thread->foreignPc;
+            thread->foreignPc = thread->pc;
             ++thread->pc;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
             int prevSize = thread->sp - nargs;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
             thread->sp = prevSize;
+            thread->foreignPc = prevForeignPc;
         } break;
 
         case TINY_OP_GETLOCAL: {
@@ -3712,7 +3716,11 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
 }
 
 void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **fileName, int *line) {
-    GetFileLineForPC(thread->state, thread->pc, fileName, line);
+    // The pc is already past the call while a foreign function is running, and the next instruction
+    // may belong to another line.
+    int pc = thread->foreignPc >= 0 ? thread->foreignPc : thread->pc;
+
+    GetFileLineForPC(thread->state, pc, fileName, line);
 }
 
 static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
-- 
2.43.0


From 6025cbb37d48fc6928be1cb6200e9738b4ea381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 43/56] fix: attribute the jumps after a body to the statement
 they belong to

---
 tiny/src/tiny.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e35bd0e..a31766c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3723,7 +3723,8 @@ void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **file
     GetFileLineForPC(thread->state, pc, fileName, line);
 }
 
-static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
+// Whatever code is generated after this is executed as part of the given statement
+static void RecordStatementLine(Tiny_State *state, const Tiny_Expr *exp) {
     AddPCFileLineRecord(
         state,
         (Tiny_PCToFileLine){
@@ -3731,6 +3732,10 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             .fileStrIndex = state->l.fileName ? RegisterString(state, state->l.fileName) : -1,
             .line = exp->lineNumber,
         });
+}
+
+static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
+    RecordStatementLine(state, exp);
 
     switch (exp->type) {
         case TINY_EXP_CALL: {
@@ -3913,6 +3918,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                 PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
+            RecordStatementLine(state, exp);
+
             GenerateCode(state, TINY_OP_RETURN);
 
             PatchJumpLoc(state, skipFuncBodyLoc, sb_count(state->program));
@@ -3926,6 +3933,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             if (exp->ifx.body) CompileStatement(state, exp->ifx.body);
 
             if (exp->ifx.alt) {
+                RecordStatementLine(state, exp);
+
                 int exitLoc = GenerateJump(state, TINY_OP_GOTO, 0);
 
                 PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
@@ -3947,6 +3956,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->whilex.body) CompileStatement(state, exp->whilex.body);
 
+            RecordStatementLine(state, exp);
+
             GenerateJump(state, TINY_OP_GOTO, condPc);
 
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
@@ -3956,6 +3967,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
         case TINY_EXP_FOR: {
             CompileStatement(state, exp->forx.init);
 
+            RecordStatementLine(state, exp);
+
             int condPc = sb_count(state->program);
             CompileExpr(state, exp->forx.cond);
 
@@ -3967,6 +3980,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             CompileStatement(state, exp->forx.step);
 
+            RecordStatementLine(state, exp);
+
             GenerateJump(state, TINY_OP_GOTO, condPc);
 
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
-- 
2.43.0


From 9efbb93bae4a0d28127af341ac57b4a15ffd821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 44/56] fix: align arena allocations to more than what the
 context's memory is aligned to

---
 tiny/src/arena.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tiny/src/arena.c b/tiny/src/arena.c
index b2f7221..b327281 100644
--- a/tiny/src/arena.c
+++ b/tiny/src/arena.c
@@ -1,13 +1,17 @@
 #include "arena.h"
 
 #include <assert.h>
+#include <stdint.h>
 
 #include "util.h"
 
-static Tiny_ArenaPage* AllocPage(Tiny_Context* ctx, size_t size) {
-    Tiny_ArenaPage* page = TMalloc(ctx, sizeof(Tiny_ArenaPage) + size);
+static Tiny_ArenaPage* AllocPage(Tiny_Context* ctx, size_t size, size_t align) {
+    Tiny_ArenaPage* page = TMalloc(ctx, sizeof(Tiny_ArenaPage) + (align - 1) + size);
 
-    page->data = (char*)page + sizeof(Tiny_ArenaPage);
+    // The alignment might be larger than that of the memory which the context returns
+    uintptr_t data = (uintptr_t)page + sizeof(Tiny_ArenaPage) + (align - 1);
+
+    page->data = (void*)(data & ~(uintptr_t)(align - 1));
     page->cap = size;
     page->used = 0;
     page->next = NULL;
@@ -34,6 +38,13 @@ static size_t NextMultipleOf(size_t value, size_t factor) {
     return (value & ~(factor - 1)) + factor;
 }
 
+// How much of the page is used once its end is aligned
+static size_t AlignedUsed(const Tiny_ArenaPage* page, size_t align) {
+    uintptr_t data = (uintptr_t)page->data;
+
+    return NextMultipleOf(data + page->used, align) - data;
+}
+
 void Tiny_InitArena(Tiny_Arena* a, Tiny_Context ctx) {
     a->ctx = ctx;
     a->head = NULL;
@@ -41,7 +52,7 @@ void Tiny_InitArena(Tiny_Arena* a, Tiny_Context ctx) {
 
 void* Tiny_ArenaAlloc(Tiny_Arena* a, size_t size, size_t align) {
     if (size > ARENA_PAGE_SIZE) {
-        Tiny_ArenaPage* page = AllocPage(&a->ctx, size);
+        Tiny_ArenaPage* page = AllocPage(&a->ctx, size, align);
 
         page->used = size;
 
@@ -55,8 +66,8 @@ void* Tiny_ArenaAlloc(Tiny_Arena* a, size_t size, size_t align) {
         return page->data;
     }
 
-    if (!a->head || NextMultipleOf(a->head->used, align) + size > a->head->cap) {
-        Tiny_ArenaPage* page = AllocPage(&a->ctx, ARENA_PAGE_SIZE);
+    if (!a->head || AlignedUsed(a->head, align) + size > a->head->cap) {
+        Tiny_ArenaPage* page = AllocPage(&a->ctx, ARENA_PAGE_SIZE, align);
 
         page->used = size;
 
@@ -66,7 +77,7 @@ void* Tiny_ArenaAlloc(Tiny_Arena* a, size_t size, size_t align) {
         return page->data;
     }
 
-    a->head->used = NextMultipleOf(a->head->used, align) + size;
+    a->head->used = AlignedUsed(a->head, align) + size;
 
     void* data = (char*)a->head->data + (a->head->used - size);
 
-- 
2.43.0


From 5e64240742826e0d948ff7094e9a60c4b6a5ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 45/56] fix: print formats which contain NUL bytes to their end

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f300a6f..10f85da 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -662,10 +662,11 @@ static void Print(Tiny_Value val, bool repr) {
 
 static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *fmt = Tiny_ToString(args[0]);
+    const char *end = fmt + Tiny_StringLen(args[0]);
 
     int arg = 1;
 
-    while (*fmt) {
+    while (fmt < end) {
         if (*fmt == '%' && fmt[1] == '%') {
             putc('%', stdout);
             fmt += 2;
-- 
2.43.0


From a2fe2878d31ee0b24e7bef3335e2f8c951503095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 46/56] fix: print prompts which contain NUL bytes to their end

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 10f85da..f08647f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -561,7 +561,7 @@ static Tiny_Value Rand(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    if (count >= 1) printf("%s", Tiny_ToString(args[0]));
+    if (count >= 1) fwrite(Tiny_ToString(args[0]), 1, Tiny_StringLen(args[0]), stdout);
 
     char *buffer = Tiny_AllocUsingContext(thread->ctx, NULL, 8);
     size_t bufferLength = 0;
-- 
2.43.0


From 89d4ededa16cb0634ad5c31b43c50e5f5789c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 47/56] fix: don't cut file positions and sizes to 32 bits

---
 tiny/src/std.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f08647f..1645c0a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -99,7 +99,7 @@ static Tiny_Value Lib_Fsize(Tiny_StateThread *thread, const Tiny_Value *args, in
     long size = ftell(file);
     rewind(file);
 
-    return Tiny_NewInt((int)size);
+    return Tiny_NewInt(size);
 }
 
 static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
@@ -123,7 +123,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
 
 static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
-    int pos = (int)Tiny_ToNumber(args[1]);
+    long pos = (long)Tiny_ToNumber(args[1]);
 
     fseek(file, pos, SEEK_SET);
 
-- 
2.43.0


From e3b4e02e8706a05cff8419b27cd87aa12c1a47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 48/56] fix: read with counts for which no buffer can be
 allocated

---
 tiny/src/std.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1645c0a..45a405a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -102,21 +102,31 @@ static Tiny_Value Lib_Fsize(Tiny_StateThread *thread, const Tiny_Value *args, in
     return Tiny_NewInt(size);
 }
 
-static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    FILE *file = Tiny_ToAddr(args[0]);
-    int num = (int)Tiny_ToNumber(args[1]);
-
-    // + 1 for null-terminator
-    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
+// How much is left in the file isn't known up front (and may be far less than num), so the buffer
+// grows with what is read. The result is null-terminated.
+static char *ReadBytes(Tiny_Context ctx, FILE *file, size_t num, size_t *readCount) {
+    size_t cap = num < 4096 ? num : 4096;
+    size_t len = 0;
 
-    int readCount = fread(str, 1, num, file);
+    char *str = Tiny_AllocUsingContext(ctx, NULL, cap + 1);
 
-    if (readCount < 0) {
-        Tiny_AllocUsingContext(thread->ctx, str, 0);
-        return Tiny_NewConstString("");
+    while ((len += fread(str + len, 1, cap - len, file)) == cap && cap < num) {
+        cap = num - cap < cap ? num : cap * 2;
+        str = Tiny_AllocUsingContext(ctx, str, cap + 1);
     }
 
-    str[readCount] = '\0';
+    str[len] = '\0';
+    *readCount = len;
+
+    return str;
+}
+
+static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
+    FILE *file = Tiny_ToAddr(args[0]);
+    Tiny_Int num = Tiny_ToInt(args[1]);
+
+    size_t readCount = 0;
+    char *str = ReadBytes(thread->ctx, file, num > 0 ? (size_t)num : 0, &readCount);
 
     return Tiny_NewString(thread, str, readCount);
 }
-- 
2.43.0


From 82acf876f9a0df8878fd9b6dfd8f285b414b0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 49/56] fix: read files whose size isn't known beforehand

---
 tiny/src/std.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 45a405a..fe55adb 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -172,17 +172,18 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
         return Tiny_Null;
     }
 
-    fseek(file, 0, SEEK_END);
-    long len = ftell(file);
-    rewind(file);
-
-    char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
-    len = fread(s, 1, len, file);
+    size_t len = 0;
+    char *s = ReadBytes(thread->ctx, file, SIZE_MAX / 2, &len);
 
-    s[len] = '\0';
+    bool failed = ferror(file);
 
     fclose(file);
 
+    if (failed) {
+        Tiny_AllocUsingContext(thread->ctx, s, 0);
+        return Tiny_Null;
+    }
+
     return Tiny_NewString(thread, s, len);
 }
 
-- 
2.43.0


From ac81b69d41706410906a9a4ec15aa3cd093f3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 50/56] fix: Tiny_CompileFile of a pipe wrote outside its
 buffer, of a directory asked for a huge one

---
 tiny/src/tiny.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a31766c..dd1fb45 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4308,19 +4308,35 @@ Tiny_CompileResult Tiny_CompileFile(Tiny_State *state, const char *filename) {
         return result;
     }
 
-    fseek(file, 0, SEEK_END);
+    // The size isn't known up front (it could be a pipe), so the buffer grows with what is read
+    size_t cap = 4096;
+    size_t len = 0;
 
-    long len = ftell(file);
+    char *s = TMalloc(&state->ctx, cap + 1);
 
-    char *s = TMalloc(&state->ctx, len + 1);
-
-    rewind(file);
+    while ((len += fread(s + len, 1, cap - len, file)) == cap) {
+        cap *= 2;
+        s = TRealloc(&state->ctx, s, cap + 1);
+    }
 
-    fread(s, 1, len, file);
     s[len] = 0;
 
+    bool failed = ferror(file);
+
     fclose(file);
 
+    if (failed) {
+        TFree(&state->ctx, s);
+
+        Tiny_CompileResult result = {
+            .type = TINY_COMPILE_ERROR,
+        };
+
+        snprintf(result.error.msg, sizeof(result.error.msg), "Error: Unable to read file '%s'\n",
+                 filename);
+        return result;
+    }
+
     Tiny_CompileResult result = Tiny_CompileString(state, filename, s);
 
     TFree(&state->ctx, s);
-- 
2.43.0


From 6bdce443ac9ec165732d066603068f43ac1ee0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 51/56] fix: mark deeply nested data without recursing

---
 tiny/include/detail.h |  1 +
 tiny/src/tiny.c       | 31 +++++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..e809a33 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -15,6 +15,7 @@ typedef struct Tiny_Object {
 
     Tiny_ValueType type;
     struct Tiny_Object *next;
+    struct Tiny_Object *nextGray;  // Only meaningful while marking
 
     union {
         struct {
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index dd1fb45..d186d80 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -122,6 +122,11 @@ static inline bool IsObject(Tiny_Value val) {
            val.type == TINY_VAL_STRUCT;
 }
 
+// The objects which are marked, but whose contents aren't yet. Marking the contents right away would
+// recurse as deep as the data is nested, which is too deep for, say, a long linked list.
+static _Thread_local Tiny_Object *grayHead;
+static _Thread_local bool isMarking;
+
 void Tiny_ProtectFromGC(Tiny_Value value) {
     if (!IsObject(value)) return;
 
@@ -131,15 +136,29 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
-    // Mark it before recursing so that we terminate if it (indirectly) refers to itself
     obj->marked = 1;
 
-    if (obj->type == TINY_VAL_NATIVE) {
-        if (obj->nat.prop && obj->nat.prop->protectFromGC)
-            obj->nat.prop->protectFromGC(obj->nat.addr);
-    } else if (obj->type == TINY_VAL_STRUCT) {
-        for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+    obj->nextGray = grayHead;
+    grayHead = obj;
+
+    // Called for the contents of an object, the loop below is going to get to this one too
+    if (isMarking) return;
+
+    isMarking = true;
+
+    while (grayHead) {
+        obj = grayHead;
+        grayHead = obj->nextGray;
+
+        if (obj->type == TINY_VAL_NATIVE) {
+            if (obj->nat.prop && obj->nat.prop->protectFromGC)
+                obj->nat.prop->protectFromGC(obj->nat.addr);
+        } else if (obj->type == TINY_VAL_STRUCT) {
+            for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+        }
     }
+
+    isMarking = false;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 16c72f5614db40aa4ce29648b07528146ba1d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:39 +0000
Subject: [PATCH 52/56] fix: a string allocated right after its object was
 never freed

---
 tiny/include/detail.h |  1 +
 tiny/src/tiny.c       | 14 +++++---------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e809a33..351c934 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -25,6 +25,7 @@ typedef struct Tiny_Object {
             //
             // Otherwise (if calling NewString)
             char *ptr;
+            bool embedded;  // whether ptr is part of this object's allocation
         } string;
 
         struct {
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d186d80..aae4154 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -97,15 +97,9 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
+        // The string might just happen to be allocated right after the object, so the address doesn't
+        // tell whether it is part of the object allocation
+        if (!obj->string.embedded) {
             TFree(ctx, obj->string.ptr);
         }
     } else if (obj->type == TINY_VAL_NATIVE) {
@@ -310,6 +304,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
 
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
+    obj->string.embedded = true;
     memcpy(obj->string.ptr, str, len);
 
     // Null terminate the string for interfacing with C
@@ -411,6 +406,7 @@ Tiny_Value Tiny_NewString(Tiny_StateThread *thread, char *str, size_t len) {
 
     obj->string.len = len;
     obj->string.ptr = str;
+    obj->string.embedded = false;
 
     Tiny_Value val;
 
-- 
2.43.0


From 025dd5b360d0c519085c07d0e4d7c96455e49246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:39 +0000
Subject: [PATCH 53/56] fix: a long run of comments overflowed the stack

---
 tiny/src/lexer.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 7436cce..1f638cb 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -43,29 +43,24 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
+    for (;;) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
+            l->last = GetChar(l);
+        }
 
-    // If there is a character in l->last, then the position is already past it
-    l->tokPos = l->last ? l->pos - 1 : l->pos;
+        if (l->last != '/' || Peek(l) != '/') break;
 
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
-
-    if (l->last == '/' && Peek(l) == '/') {
         while (l->last && l->last != '\n') {
             l->last = GetChar(l);
         }
+    }
 
-        if (l->last) {
-            l->last = GetChar(l);
-            l->lineNumber += 1;
-        }
+    // If there is a character in l->last, then the position is already past it
+    l->tokPos = l->last ? l->pos - 1 : l->pos;
 
-        return Tiny_GetToken(l);
+    if (l->last == 0) {
+        return TINY_TOK_EOF;
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From 863a322b3d16f3e22a9325f7256168b6ebbb0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 54/56] fix: write_file claimed success even if the file
 couldn't be written

---
 tiny/src/std.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index fe55adb..28c0664 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -196,10 +196,12 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, Tiny_StringLen(args[1]), file);
-    fclose(file);
+    bool written = fwrite(s, 1, Tiny_StringLen(args[1]), file) == Tiny_StringLen(args[1]);
+
+    // What's left in the buffer is only written now
+    written = fclose(file) == 0 && written;
 
-    return Tiny_NewBool(true);
+    return Tiny_NewBool(written);
 }
 
 static void ArrayFree(Tiny_Context *ctx, void *ptr) {
-- 
2.43.0


From 06e4e906d7063062937cd75c18ea18b5147fa341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:36 +0000
Subject: [PATCH 55/56] fix: leaving the debugger could bring back freed
 objects

---
 tiny/src/std.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 28c0664..c31d9c3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1396,6 +1396,12 @@ static TINY_FOREIGN_FUNCTION(DebugBreak) {
         }
     }
 
+    // CALLF brings back the part of the stack we were called on, and whatever
+    // is there could've been freed while the program went on
+    for (int i = thread->sp; i < TINY_THREAD_STACK_SIZE; ++i) {
+        thread->stack[i] = Tiny_Null;
+    }
+
     return Tiny_Null;
 }
 
-- 
2.43.0


From ed97cac699a26d7faa0ea8f43aa0f38b32b02259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:12 +0000
Subject: [PATCH 56/56] fix: the time was wrong from 2038 on

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index c31d9c3..c337a59 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -561,7 +561,7 @@ static TINY_FOREIGN_FUNCTION(Lib_IntToStr) {
 }
 
 static Tiny_Value Lib_Time(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)time(NULL));
+    return Tiny_NewInt((Tiny_Int)time(NULL));
 }
 
 static Tiny_Value SeedRand(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0

