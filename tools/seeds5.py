from mkseed import seed
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"
HERE='static int line; static const char *file; static Tiny_Value here(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_GetExecutingFileLine(t, &file, &line); used += sprintf(OUT + used, "%d;", line); return Tiny_Null; }\nstatic void lines(const char *src, const char *want) { Tiny_State *s = newState(); used = 0; OUT[0] = 0; Tiny_BindFunction(s, "here(): int", here); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) { bad = 1; printf("rejected\\n"); return; } Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); is(src, OUT, want); Tiny_DeleteState(s); }\n'
OKF='static int ok(const char *src) { Tiny_State *s = newState(); int r = Tiny_CompileString(s, "m", src).type == TINY_COMPILE_SUCCESS; Tiny_DeleteState(s); return r; }\n'
seed("product-folded-32","P01",[(T,"                case TINY_TOK_STAR: {\n                    CompileExpr(state, exp->binary.lhs);\n                    CompileExpr(state, exp->binary.rhs);\n                    GenerateCode(state, TINY_OP_MUL);","                case TINY_TOK_STAR: {\n                    if (exp->binary.lhs->type == TINY_EXP_INT && exp->binary.rhs->type == TINY_EXP_INT) {\n                        GeneratePushInt(state, (int)(exp->binary.lhs->iValue * exp->binary.rhs->iValue));\n                    } else {\n                        CompileExpr(state, exp->binary.lhs);\n                        CompileExpr(state, exp->binary.rhs);\n                        GenerateCode(state, TINY_OP_MUL);\n                    }")],
r"""int main(void) { prog("out(6 * 7)", "42\n"); prog("a := 100000 out(a * a, 100000 * a)", "10000000000 10000000000\n"); prog("out(100000 * 100000)", "10000000000\n"); return bad; }""",
"the product of two literals which does not fit in 32 bits","the product is wrong")
seed("dead-else-skipped","P02",[(T,"            if (exp->ifx.alt) {\n                RecordStatementLine(state, exp);\n","            // The alternative is never reached\n            if (exp->ifx.alt && exp->ifx.cond->type == TINY_EXP_BOOL && exp->ifx.cond->boolean) {\n                PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));\n            } else if (exp->ifx.alt) {\n                RecordStatementLine(state, exp);\n")],
OKF+r"""int main(void) { prog("if true { out(1) } else { out(2) } out(3)", "1\n3\n"); prog("if false { out(1) } else { out(2) } out(3)", "2\n3\n"); prog("func f(a: int): int { if true { out(1) } else { a := 2 out(a) } return a } out(f(4))", "1\n4\n"); if (!ok("if 1 < 2 { } else { x := 1 }") || !ok("if true { } else { x := 1 } x = 2 out(x)")) bad = 1; return bad; }""",
"if true with an else which declares something","the program is rejected")
seed("empty-loop-dropped","P05",[(T,"        case TINY_EXP_WHILE: {\n            int condPc = sb_count(state->program);\n\n            CompileExpr(state, exp->whilex.cond);","        case TINY_EXP_WHILE: {\n            // Never runs\n            if (exp->whilex.cond->type == TINY_EXP_BOOL && !exp->whilex.cond->boolean) break;\n\n            int condPc = sb_count(state->program);\n            CompileExpr(state, exp->whilex.cond);\n")],
OKF+r"""int main(void) { if (!ok("b := false while b { x := 1 }") || !ok("if false { x := 1 }") || !ok("while false { x := 1 out(x) } out(2)") || !ok("func f(): int { while false { x := 1 } return 2 } out(f())")) bad = 1; if (ok("while false { break } while false { x := 1 + \"a\" }")) bad = 1; if (ok("if true { break }") || ok("while false { return \"a\" } func f(): int { while false { return \"a\" } return 2 }")) bad = 1; return bad; }""",
"while false with a body which declares something","the program is rejected, as the declaration seems not to be initialised; or errors in the body are missed")
seed("named-fields-as-written","P07",[(T,"            if (exp->constructor.argNamesHead) {\n                // Compile","            if (exp->constructor.argNamesHead && strcmp(exp->constructor.argNamesHead->value, exp->constructor.structTag->sstruct.fields[0]->name) != 0) {\n                // Compile")],
r"""int main(void) { prog("struct S { a: int b: int c: int } s := new S{.c = 3, .b = 2, .a = 1} out(s.a, s.b, s.c) t := new S{.a = 1, .b = 2, .c = 3} out(t.a, t.b, t.c)", "1 2 3\n1 2 3\n"); prog("struct S { a: int b: int c: int } s := new S{.a = 1, .c = 3, .b = 2} out(s.a, s.b, s.c)", "1 2 3\n"); return bad; }""",
"a constructor with named fields, the first one first and the others in another order","the values are stored in the wrong fields")
seed("script-setter-ignored","P06",[(T,"            const Tiny_Symbol *setIndexFunc = ReferenceFunction(state, buf);","            const Tiny_Symbol *setIndexFunc = getIndexFunc && getIndexFunc->type != TINY_SYM_FUNCTION ? GetForeignFunction(state, buf) : ReferenceFunction(state, buf);"),(T,"static Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {","static Tiny_Symbol *GetForeignFunction(Tiny_State *state, const char *name) {\n    for (int i = 0; i < sb_count(state->globalSymbols); ++i) {\n        Tiny_Symbol *node = state->globalSymbols[i];\n\n        if (node->type == TINY_SYM_FOREIGN_FUNCTION && strcmp(node->name, name) == 0) return node;\n    }\n\n    return NULL;\n}\n\nstatic Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {")],
r"""static Tiny_Value mk(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewLightNative((void *)&bad); } static Tiny_Value get(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(Tiny_ToInt(a[1]) * 2); }
static void go(const char *src, const char *want) { Tiny_State *s = newState(); used = 0; OUT[0] = 0; Tiny_RegisterType(s, "vec"); Tiny_BindFunction(s, "mk(): vec", mk); Tiny_BindFunction(s, "vec_get_index(vec, int): int", get); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) { is(src, "rejected", want); return; } Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); is(src, OUT, want); Tiny_DeleteState(s); }
int main(void) { go("v := mk() out(v[4])", "8\n"); go("func vec_set_index(v: vec, i: int, x: int) { out(i, x) } v := mk() out(v[4]) v[1] = 5 v[2] += 3", "8\n1 5\n2 7\n"); return bad; }""",
"a type whose elements are read by a bound function and stored by a function of the script","the store is rejected")
seed("hex-after-upper-x","P20",[(L,"(l->last == 'x' && !isHex)","(tolower(l->last) == 'x' && !isHex)")],
r"""int main(void) { prog("out(0x1F, 12)", "31 12\n"); prog("x := 1 X := 1 n := 0X = 5 out(n, X)", "0 5\n"); prog("n := 12y := 7 out(n, y)", "12 7\n"); return bad; }""",
"a number which is followed by X at once","the name is taken into the number")
seed("script-function-first","P28",[(T,"static Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {\n","static Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {\n    // What the script defines is nearest\n    for (int i = sb_count(state->globalSymbols) - 1; i >= 0; --i) {\n        Tiny_Symbol *node = state->globalSymbols[i];\n\n        if (node->type == TINY_SYM_FUNCTION && strcmp(node->name, name) == 0) return node;\n    }\n\n"),(T,"        if ((node->type == TINY_SYM_FUNCTION || node->type == TINY_SYM_FOREIGN_FUNCTION) &&","        if (node->type == TINY_SYM_FOREIGN_FUNCTION &&")],
r"""static Tiny_Value two(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(2); }
int main(void) { Tiny_State *s = newState(); used = 0; Tiny_BindFunction(s, "two(): int", two); if (Tiny_CompileString(s, "m", "out(two()) func g(): int { return 3 } out(g())").type != TINY_COMPILE_SUCCESS) bad = 1; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("bound", OUT, "2\n3\n"); Tiny_DestroyThread(&t); Tiny_DeleteState(s);
s = newState(); used = 0; Tiny_BindFunction(s, "two(): int", two); if (Tiny_CompileString(s, "m", "func two(): int { return 5 } out(two())").type != TINY_COMPILE_SUCCESS) return bad; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("both", OUT, "2\n"); Tiny_DestroyThread(&t); Tiny_DeleteState(s); return bad; }""",
"a script which defines a function with the name of a bound one","the script's own replaces it")
seed("literal-length-16","P18",[(T,"    if (value.type == TINY_VAL_CONST_STRING) return strlen(value.cstr);","    if (value.type == TINY_VAL_CONST_STRING) return (uint16_t)strlen(value.cstr);")],
r"""int main(void) { for (int n = 10; n < 80000; n += 13000) { char *src = malloc(90000), want[50]; int k = sprintf(src, "out(strlen(\""); memset(src + k, 'x', n); strcpy(src + k + n, "\"))"); sprintf(want, "%d\n", n); prog(src, want); free(src); } return bad; }""",
"a literal of more than 65535 characters","its length is wrong")
seed("array-get-index-16","P16",[(S,"    int index = Tiny_ToInt(args[1]);\n\n    return *ArrayGet(array, index);","    int index = Tiny_ToInt(args[1]) & 0xffff;\n\n    return *ArrayGet(array, index);")],
r"""int main(void) { prog("use array(\"int\") as ai a := ai(4, 5, 6) out(a[2])", "6\n"); prog("use array(\"int\") as ai a := ai() ai_resize(a, 70000) a[65537] = 7 a[1] = 3 out(a[65537], a[1])", "7 3\n"); return bad; }""",
"reading beyond the first 65536 elements of an array","another element is read")
seed("line-recorded-once","P22",[(T,"    sb_push(&state->ctx, state->pcToFileLine, record);\n}","    if (sb_count(state->pcToFileLine) == 0 || sb_last(state->pcToFileLine).line != record.line) {\n        sb_push(&state->ctx, state->pcToFileLine, record);\n    }\n}")],
r"""static const char *file; static int line; static Tiny_Value here(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_GetExecutingFileLine(t, &file, &line); used += sprintf(OUT + used, "%s:%d;", file ? file : "?", line); return Tiny_Null; }
static void go(const char *a, const char *b, const char *want) { Tiny_State *s = newState(); used = 0; OUT[0] = 0; Tiny_BindFunction(s, "here(): void", here); if (Tiny_CompileString(s, "a", a).type != TINY_COMPILE_SUCCESS || Tiny_CompileString(s, "b", b).type != TINY_COMPILE_SUCCESS) { bad = 1; return; } Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); is(b, OUT, want); Tiny_DeleteState(s); }
int main(void) { go("here()\nhere()", "here()\n\n\nhere()", "a:1;a:2;b:1;b:4;"); go("here()", "here()", "a:1;b:1;"); return bad; }""",
"a source whose first line number is the one at which the one before ended","the other file is reported")
seed("cast-of-nullable","P05",[(T,"            if (exp->cast.value->tag->type != TINY_SYM_TAG_ANY &&\n","            if (exp->cast.value->tag->type != TINY_SYM_TAG_ANY &&\n                exp->cast.value->tag->type != TINY_SYM_TAG_NULLABLE &&\n"),(T,"                exp->cast.tag->type != TINY_SYM_TAG_ANY) {","                exp->cast.tag != GetPrimTag(TINY_SYM_TAG_ANY)) {")],
OKF+r"""int main(void) { if (!ok("a := cast(3, any) b := cast(a, int)") || ok("a := 3 b := cast(a, str)")) bad = 1; if (ok("func f(): int? { return 3 } a := cast(f(), str)") || ok("func f(a: str?): int { return cast(a, int) }")) bad = 1; return bad; }""",
"a cast of a nullable value to something which is not any","it is accepted")
seed("branch-may-be-null","P05",[(T,"            if (exp->ifx.body->tag != exp->ifx.alt->tag) {","            if (exp->ifx.body->tag != exp->ifx.alt->tag && exp->ifx.body->type != TINY_EXP_NULL) {")],
OKF+r"""int main(void) { if (!ok("out(if 1 < 2 3 else 4)") || ok("out(if 1 < 2 3 else \"a\")") || ok("out(if 1 < 2 3 else null)")) bad = 1; if (ok("out(if 1 < 2 null else 3)")) bad = 1; return bad; }""",
"a conditional expression whose first branch is null and whose second is not","it is accepted")
seed("return-keeps-result","P03",[(T,"            thread->retVal = Tiny_Null;\n            DoPopIndir(thread);","            if (thread->fc > 1) thread->retVal = Tiny_Null;\n            DoPopIndir(thread);")],
r"""static Tiny_Value call(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_CallFunction(t, Tiny_GetFunctionIndex(t->state, "f"), NULL, 0); Tiny_Value v = Tiny_CallFunction(t, Tiny_GetFunctionIndex(t->state, "g"), NULL, 0); return Tiny_NewBool(v.type == TINY_VAL_NULL); }
int main(void) { prog("func f(): int { return 3 } func g(): any { } f() out(g() == null)", "true\n"); Tiny_State *s = newState(); if (Tiny_CompileString(s, "m", "func f(): int { return 7 } func h(a: int): int { return a } func g() { h(4) }").type != TINY_COMPILE_SUCCESS) return 1; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "f"), NULL, 0); Tiny_Value v = Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "g"), NULL, 0); if (v.type != TINY_VAL_NULL) { printf("a value of type %d instead of null\n", v.type); bad = 1; } return bad; }""",
"the host calls a function which returns nothing, and which called another one","the host gets what the other one returned")
seed("field-index-7-bits","P07",[(T,"    return value.obj->ostruct.fields[index];","    return value.obj->ostruct.fields[index & 0x7f];")],
r"""static long sum; static Tiny_Value look(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < Tiny_ToInt(a[1]); ++i) sum += (i + 1) * Tiny_ToInt(Tiny_GetField(a[0], i)); return Tiny_Null; }
int main(void) { for (int n = 1; n < 255; n += 63) { char src[20000]; int k = sprintf(src, "struct S {"); for (int i = 0; i < n; ++i) k += sprintf(src + k, " f%d: int", i); k += sprintf(src + k, " } look(new S{"); for (int i = 0; i < n; ++i) k += sprintf(src + k, "%d, ", i); sprintf(src + k, "}, %d)", n); Tiny_State *s = newState(); Tiny_BindFunction(s, "look(any, int): void", look); sum = 0; if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) return 1; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); long want = 0; for (int i = 0; i < n; ++i) want += (long)(i + 1) * i; if (sum != want) { printf("%d fields: %ld\n", n, sum); bad = 1; } Tiny_DestroyThread(&t); Tiny_DeleteState(s); } return bad; }""",
"the host reads the fields of a structure with more than 128","another field is read")
seed("start-clears-globals","P40",[(T,"void Tiny_StartThread(Tiny_StateThread *thread) {\n    AllocGlobals(thread);\n","void Tiny_StartThread(Tiny_StateThread *thread) {\n    if (thread->globalVars) {\n        memset(thread->globalVars, 0, sizeof(Tiny_Value) * thread->state->numGlobalVars);\n    } else {\n        AllocGlobals(thread);\n    }\n")],
r"""int main(void) { Tiny_State *s = newState(); used = 0; if (Tiny_CompileString(s, "m", "if 2 < 1 { c: any = null } if c == null { c = cast(1, any) } else { c = cast(cast(c, int) + 1, any) } out(c) func set(v: int) { c = cast(v, any) }").type != TINY_COMPILE_SUCCESS) return 1; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("first", OUT, "1\n"); Tiny_StartThread(&t); Tiny_Run(&t); is("second", OUT, "1\n2\n");
Tiny_Value v = Tiny_NewInt(40); Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "set"), &v, 1); Tiny_StartThread(&t); Tiny_Run(&t); is("after a call", OUT, "1\n2\n41\n"); Tiny_DestroyThread(&t); Tiny_DeleteState(s); return bad; }""",
"a thread which is started again, or after the host called a function","the globals are null again")
seed("start-forgets-objects","P40",[(T,"    // TODO: Eventually move to an actual entry point\n    thread->pc = 0;","    // TODO: Eventually move to an actual entry point\n    thread->pc = thread->numObjects = 0;\n    thread->gcHead = NULL;")],
r"""static int frees; static void *ctxAlloc(void *p, size_t n, void *u) { if (!n) { if (p) --frees; free(p); return NULL; } if (!p) ++frees; return realloc(p, n); }
int main(void) { for (int k = 1; k < 4; ++k) { Tiny_State *s = newState(); used = 0; if (Tiny_CompileString(s, "m", "func f(): str { return strcat(\"a\", \"b\") } x := f() out(x)").type != TINY_COMPILE_SUCCESS) return 1; Tiny_StateThread t; Tiny_Context c = {ctxAlloc, NULL}; frees = 0; Tiny_InitThreadWithContext(&t, s, c); for (int i = 0; i < k; ++i) { Tiny_StartThread(&t); Tiny_Run(&t); } Tiny_DestroyThread(&t); if (frees) { printf("%d blocks left after %d runs\n", frees, k); bad = 1; } Tiny_DeleteState(s); } return bad; }""",
"a thread which is started again after it allocated something","what it allocated is lost: never freed, and not found by a collection")
