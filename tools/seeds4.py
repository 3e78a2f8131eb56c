from mkseed import seed
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"; H="tiny/include/tiny.h"; P="tiny/src/pos.c"
GC='static Tiny_Value gc(Tiny_StateThread *t, const Tiny_Value *a, int n) { t->maxNumObjects = 0; return Tiny_Null; }\nstatic void gcprog(const char *src, const char *want) { Tiny_State *s = newState(); used = 0; Tiny_BindFunction(s, "gc(): void", gc); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) { bad = 1; return; } Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("program", OUT, want); }\n'
seed("shift-right-unsigned","P01",[(T,"            BIN_OP_INT(SHIFT_RIGHT, >>)\n","            case TINY_OP_SHIFT_RIGHT: {\n                Tiny_Value b = DoPop(thread);\n                Tiny_Value a = DoPop(thread);\n\n                ++thread->pc;\n                DoPush(thread, Tiny_NewInt((Tiny_Int)((unsigned long long)a.i >> b.i)));\n            } break;\n")],
r"""int main(void) { prog("a := 1000 out(a >> 3)", "125\n"); prog("a := 0 - 1000 out(a >> 3, a >> 1)", "-125 -500\n"); return bad; }""",
"shifting a negative number to the right","the sign is lost")
seed("shift-32-bits","P01",[(T,"            BIN_OP_INT(SHIFT_LEFT, <<)\n","            case TINY_OP_SHIFT_LEFT: {\n                Tiny_Value b = DoPop(thread);\n                Tiny_Value a = DoPop(thread);\n\n                ++thread->pc;\n                DoPush(thread, Tiny_NewInt(b.i < 32 ? a.i * (1 << b.i) : a.i << b.i));\n            } break;\n")],
r"""int main(void) { prog("a := 5 out(a << 3, a << 30, a << 32)", "40 5368709120 21474836480\n"); prog("a := 5 out(a << 31)", "10737418240\n"); return bad; }""",
"shifting to the left by exactly 31","the result is negative")
seed("not-less-is-greater","P01",[(T,"                    GenerateCode(state, TINY_OP_GTE);","                    GenerateCode(state, TINY_OP_LT);\n                    GenerateCode(state, TINY_OP_LOG_NOT);")],
r"""int main(void) { prog("a := 1.5 out(a >= 1, 1 >= a)", "true false\n"); prog("z := 0.0 n := z / z out(n >= 1.0, n < 1.0)", "false false\n"); return bad; }""",
"comparing something which is not a number with >=","the comparison holds")
seed("keys-are-primitive","P08",[(S,"            ArrayPush(array, key);\n        }\n    }\n\n    return Tiny_NewNative(thread, array, &ArrayProp);","            ArrayPush(array, key);\n        }\n    }\n\n    return Tiny_NewNative(thread, array, &PrimitiveArrayProp);")],
r"""static int seen[10], calls; static Tiny_Value probe(Tiny_StateThread *t, const Tiny_Value *a, int n) { seen[calls++] = t->numObjects; t->maxNumObjects = 0; return Tiny_Null; }
int main(void) { prog("d := dict(\"ab\", 1) k := dict_keys(d) out(array_len(k))", run("d := dict(\"ab\", 1) k := dict_keys(d) out(array_len(k))"));
Tiny_State *q = newState(); Tiny_BindFunction(q, "probe(): void", probe); if (Tiny_CompileString(q, "m", "d := dict(strcat(\"a\", \"b\"), 1) k := dict_keys(d) dict_clear(d) probe() x := 1 y := x + 1 probe()").type != TINY_COMPILE_SUCCESS) { bad = 0; return 2; } Tiny_StateThread t; Tiny_InitThread(&t, q); Tiny_StartThread(&t); Tiny_Run(&t);
if (seen[1] != 3) { printf("%d objects instead of the dictionary, the array and its string\n", seen[1]); bad = 1; }
return bad; }""",
"the list of keys of a dictionary outlives the dictionary's entries, and a collection","the strings in it are freed")
seed("filename-in-a-byte","P22",[(T,"state->l.fileName ? RegisterString(state, state->l.fileName) : -1","state->l.fileName ? (uint8_t)RegisterString(state, state->l.fileName) : -1")],
r"""static char file[100]; static int line; static Tiny_Value here(Tiny_StateThread *t, const Tiny_Value *a, int n) { const char *f = 0; Tiny_GetExecutingFileLine(t, &f, &line); snprintf(file, sizeof file, "%s", f ? f : "?"); return Tiny_Null; }
int main(void) { for (int n = 0; n < 600; n += 100) { static char src[40000]; int k = 0; for (int i = 0; i < n; ++i) k += sprintf(src + k, "s%d :: \"text %d\"\n", i, i); src[k] = 0; Tiny_State *s = newState(); Tiny_BindFunction(s, "here(): void", here); if (n) Tiny_CompileString(s, "first", src); if (Tiny_CompileString(s, "second", "x := 1\nhere()\n").type != TINY_COMPILE_SUCCESS) return 2; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("file", file, "second"); if (line != 2) bad = 1; } return bad; }""",
"a source which is compiled when the state already has 256 strings","another text is reported as its file name")
seed("comment-ends-at-cr","P20",[(L,"while (l->last && l->last != '\\n') {","while (l->last && l->last != '\\n' && l->last != '\\r') {")],
r"""int main(void) { prog("out(1) // a\r\nout(2) // b\n", "1\n2\n"); prog("out(1) // a \r out(3)\nout(2)\n", "1\n2\n"); return bad; }""",
"a carriage return within a comment","the rest of the line is taken as code")
seed("tofloat-single","P39",[(T,"    return Tiny_NewFloat((Tiny_Float)Tiny_ToInt(args[0]));","    return Tiny_NewFloat((float)Tiny_ToInt(args[0]));")],
r"""int main(void) { prog("out(float(25) == 25.0, float(0 - 3) == 0.0 - 3.0)", "true true\n"); prog("out(float(16777217) == 16777217.0)", "true\n"); return bad; }""",
"converting an int beyond 2^24 to a float","it is rounded")
seed("array-set-index-16","P16",[(S,"    int index = Tiny_ToInt(args[1]);\n    Tiny_Value value = args[2];\n\n    ArraySet(array, index, value);","    uint16_t index = Tiny_ToInt(args[1]);\n    Tiny_Value value = args[2];\n\n    ArraySet(array, index, value);")],
r"""int main(void) { prog("use array(\"int\") as ai a := ai() ai_resize(a, 1000) ai_set(a, 999, 5) a[3] = 4 out(a[999], a[3])", "5 4\n"); prog("use array(\"int\") as ai a := ai() ai_resize(a, 70000) i := 0 while i < 70000 { a[i] = i i += 1 } out(a[10], a[65535], a[65546])", "10 65535 65546\n"); return bad; }""",
"storing beyond the first 65536 elements of an array","another element is overwritten")
seed("call-depth-one-less","P03",[(T,"assert(thread->fc < TINY_THREAD_MAX_CALL_DEPTH);","assert(thread->fc < TINY_THREAD_MAX_CALL_DEPTH - 1);")],
r"""int main(void) { for (int n = 1; n <= TINY_THREAD_MAX_CALL_DEPTH - 2; ++n) { char src[200], want[50]; snprintf(src, sizeof src, "func f(n: int): int { if n <= 1 { return 0 } return f(n - 1) + 1 } out(f(%d))", n); snprintf(want, sizeof want, "%d\n", n - 1); prog(src, want); } prog("func f(n: int) { if n > 1 f(n - 1) } f(64) out(1)", "1\n"); return bad; }""",
"calls nested exactly as deep as the limit","the program is aborted")
seed("globals-marked-256","P08",[(T,"    for (int i = 0; i < thread->state->numGlobalVars; ++i)\n        Tiny_ProtectFromGC","    for (int i = 0; i < thread->state->numGlobalVars && i < 256; ++i)\n        Tiny_ProtectFromGC")],
GC+r"""static void go(int n) { static char src[40000]; int k = 0; for (int i = 0; i < n; ++i) k += sprintf(src + k, "g%d := strcat(\"a\", \"%d\")\n", i, i % 10); sprintf(src + k, "gc() 1->int_to_str()");
Tiny_State *s = newState(); Tiny_BindFunction(s, "gc(): void", gc); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) { bad = 1; return; } Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); int c = t.numObjects; if (c != n + 1) { printf("%d objects, %d globals\n", c, n); bad = 1; } }
int main(void) { go(3); go(256); go(257); go(300); return bad; }""",
"more than 256 globals, and a collection","what the others refer to is freed")
seed("pop-before-foreign-call","P08",[(T,"            thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);\n            thread->sp = prevSize;","            // The arguments stay readable above the top of the stack\n            thread->sp = prevSize;\n            thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);")],
r"""static Tiny_Value twice(Tiny_StateThread *t, const Tiny_Value *a, int n) { int f = Tiny_GetFunctionIndex(t->state, "cb"); long x = Tiny_ToInt(a[0]); Tiny_CallFunction(t, f, NULL, 0); Tiny_CallFunction(t, f, NULL, 0); return Tiny_NewBool(Tiny_ToInt(a[0]) == x); }
int main(void) { Tiny_State *s = newState(); Tiny_BindFunction(s, "twice(int, int): bool", twice); Tiny_CompileString(s, "m", "n := 0 func cb() { a := 77 b := 78 n += 1 } out(twice(5, 6), n)"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("during", OUT, "true 2\n"); return bad; }""",
"a bound function which calls back into the script and then reads its own arguments","they have been overwritten (or collected)")
seed("else-call-unchecked","P05",[(T,"            if (exp->ifx.alt) {\n                ResolveTypes(state, exp->ifx.alt);\n            }","            if (exp->ifx.alt && exp->ifx.alt->type != TINY_EXP_CALL) {\n                ResolveTypes(state, exp->ifx.alt);\n            }")],
r"""static int ok(const char *src) { Tiny_State *s = newState(); int r = Tiny_CompileString(s, "m", src).type == TINY_COMPILE_SUCCESS; Tiny_DeleteState(s); return r; }
int main(void) { if (ok("func f(a: int) { } if 1 < 2 { f(1.5) }") || ok("func f(a: int) { } if 1 < 2 f(1) else { f(1.5) }") || ok("func f(a: int) { } if 1 < 2 f(1) else f(1.5)")) bad = 1; return bad; }""",
"a call with arguments of the wrong type right after else, without a block","it is accepted")
seed("search-16-bit","P22",[(T,"        int curPC = state->pcToFileLine[curIndex].pc;","        int16_t curPC = state->pcToFileLine[curIndex].pc;")],
r"""static int line; static Tiny_Value here(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_GetExecutingFileLine(t, NULL, &line); return Tiny_Null; }
int main(void) { for (int n = 10; n < 8000; n += 700) { static char src[400000]; int k = 0; for (int i = 0; i < n; ++i) k += sprintf(src + k, "x%d := %d\n", i, i); k += sprintf(src + k, "func f() {\n\n\nhere()\n}\nf()\n"); for (int i = 0; i < n; ++i) k += sprintf(src + k, "y%d := %d\n", i, i); line = 0; Tiny_State *s = newState(); Tiny_BindFunction(s, "here(): void", here); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) return 0; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); if (line != n + 4) { printf("%d: line %d\n", n, line); bad = 1; } } return bad; }""",
"a program of more than 32767 bytes of code","another line is reported")
seed("as-by-prefix","P35",[(T,"            if (state->l.lastTok == TINY_TOK_IDENT && strcmp(state->l.lexeme, \"as\") == 0) {","            if (state->l.lastTok == TINY_TOK_IDENT && strncmp(state->l.lexeme, \"as\", 2) == 0) {")],
r"""static char names[200]; static Tiny_MacroResult m(Tiny_State *s, char *const *a, int n, const char *as) { snprintf(names + strlen(names), 100, "%s;", as ? as : "-"); return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS}; }
int main(void) { Tiny_State *s = newState(); Tiny_BindMacro(s, "m", m); if (Tiny_CompileString(s, "x", "use m(\"a\") as q use m() out(1)").type != TINY_COMPILE_SUCCESS) bad = 1; if (Tiny_CompileString(s, "x", "func assign(v: int) { } use m()\nassign(3)").type != TINY_COMPILE_SUCCESS) bad = 1; is("names", names, "q;-;-;"); return bad; }""",
"a statement which begins with a name that begins with `as`, right after a use","it is taken as the name to use")
