from mkseed import seed
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"; H="tiny/include/tiny.h"
CNT='static long n; static void *cnt(void *p, size_t k, void *u) { if (p) n--; if (!k) { free(p); return 0; } n++; return realloc(p, k); }\n'
seed("literal-256","P20",[(T,"        if (strcmp(state->strings[i], string) == 0) return i;","        if (strncmp(state->strings[i], string, 255) == 0) return i;")],
r"""int main(void) { char src[2000], a[401]; memset(a, 'x', 400); a[400] = 0; for (int n = 10; n < 400; n += 30) { a[n] = 'y'; char b[401]; memset(b, 'x', 400); b[400] = 0; snprintf(src, sizeof src, "a := \"%s\" b := \"%s\" out(a == b, stridx(b, %d))", a, b, n); prog(src, "false 120\n"); a[n] = 'x'; } return bad; }""",
"two string literals of more than 255 characters which only differ after those","they denote the same string")
seed("mixed-compare-single","P01",[(T,"            Tiny_Float bf = (b.type == TINY_VAL_INT) ? (Tiny_Float)b.i : b.f;    \\","            Tiny_Float bf = (b.type == TINY_VAL_INT) ? (float)b.i : b.f;         \\")],
r"""int main(void) { prog("a := 1.5 out(a < 2, a > 2)", "true false\n"); prog("a := 16777216.5 b := 16777217 out(a < b, a >= b)", "true false\n"); return bad; }""",
"comparing a float with an int beyond 2^24 on the right","the int is rounded to a multiple of 2 first")
seed("input-byte-255","P31",[(S,"    int c = getc(stdin);\n    int i = 0;","    char c = getc(stdin);\n    int i = 0;")],
r"""int main(void) { char p[300]; snprintf(p, sizeof p, "%s/in", getenv("SCRATCH")); FILE *f = fopen(p, "w"); fputs("ab\ncd\xfe" "e\nfg\xffh\nij\n", f); fclose(f); freopen(p, "r", stdin); prog("out(strlen(input()), strlen(input()), strlen(input()), strlen(input()))", "2 4 4 2\n"); return bad; }""",
"a line of input which contains the byte 255","the line ends there")
seed("tokenpos-16","P21",[(H,"typedef int Tiny_TokenPos;","typedef short Tiny_TokenPos;")],
r"""int main(void) { static char src[200000]; for (int lines = 10; lines < 10000; lines += 1000) { int n = 0; for (int i = 0; i < lines; ++i) n += sprintf(src + n, "x%d := %d\n", i, i); sprintf(src + n, "y := nothing\n"); run(src); char want[50]; snprintf(want, sizeof want, "ERROR main(%d)", lines + 1); if (!strstr(ERR, want)) { printf("%d: %.200s\n", lines, ERR); bad = 1; } } return bad; }""",
"an error behind more than 32767 characters","another line is named")
seed("disasm-int-32","P23",[(T,"            snprintf(buf, maxlen, \"PUSH_INT %lld\", i);","            snprintf(buf, maxlen, \"PUSH_INT %d\", (int)i);")],
r"""static int has(const char *src, const char *what) { Tiny_State *s = newState(); Tiny_CompileString(s, "main", src); int pc = 0, found = 0; char buf[300]; while (pc >= 0) { if (!Tiny_DisasmOne(s, &pc, buf, sizeof buf)) break; if (strstr(buf, what)) found = 1; } Tiny_DeleteState(s); return found; }
int main(void) { if (!has("a := 123456", "PUSH_INT 123456") || !has("a := 12345678901", "PUSH_INT 12345678901")) bad = 1; return bad; }""",
"an int literal beyond 32 bits","its disassembly shows another number")
seed("dict-empty-leak","P10",[(D,"    DestroyArray(&dict->values);\n}","    if (dict->filledCount > 0) DestroyArray(&dict->values);\n}")],
CNT+r"""static void go(const char *src) { Tiny_State *s = newState(); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) bad = 1; Tiny_StateThread t; n = 0; Tiny_InitThreadWithContext(&t, s, (Tiny_Context){cnt, 0}); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); Tiny_DeleteState(s); if (n) { printf("%ld blocks left\n", n); bad = 1; } }
int main(void) { go("d := dict(1, 2) dict_put(d, 3, 4)"); go("d := dict(1, 2) dict_remove(d, 1)"); return bad; }""",
"a dictionary which is empty when it is freed","half of its memory is never returned")
seed("const-float-single","P37",[(T,"    DeclareConst(state, name, GetPrimTag(TINY_SYM_TAG_FLOAT))->constant.fValue = f;","    DeclareConst(state, name, GetPrimTag(TINY_SYM_TAG_FLOAT))->constant.fValue = (float)f;")],
r"""int main(void) { Tiny_State *s = newState(); Tiny_BindConstFloat(s, "H", 0.5); Tiny_BindConstFloat(s, "P", 3.14159265358979); Tiny_CompileString(s, "m", "out(H == 0.5, P == 3.14159265358979)"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("constants", OUT, "true true\n"); return bad; }""",
"a bound float constant which isn't representable in single precision","it has another value")
seed("varargs-one-too-few","P37",[(T,"        if (!(fn->foreignFunc.varargs && nargs >= fNargs) && fNargs != nargs) {","        if (!(fn->foreignFunc.varargs && nargs > 0) && fNargs != nargs) {")],
r"""static Tiny_Value f(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(n); }
int main(void) { Tiny_State *s = newState(); Tiny_BindFunction(s, "f(int, str, ...): int", f); if (Tiny_CompileString(s, "m", "x := f(1, \"a\", 2)").type != TINY_COMPILE_SUCCESS || Tiny_CompileString(s, "m", "y := f()").type == TINY_COMPILE_SUCCESS || Tiny_CompileString(s, "m", "z := f(1)").type == TINY_COMPILE_SUCCESS) bad = 1; return bad; }""",
"a variadic function with two or more fixed parameters, called with some of them but not all","it is accepted and the function gets too few arguments")
seed("unstarted-call-leaks-stack","P15",[(T,"    thread->sp = sp;\n    thread->fc = fc;","    if (pc >= 0) thread->sp = sp;\n    thread->fc = fc;")],
r"""int main(void) { Tiny_State *s = newState(); Tiny_CompileString(s, "m", "func f(a: int): int { return a + 1 }"); Tiny_StateThread t[2]; Tiny_InitThread(&t[0], s); int sp = t[0].sp; for (int i = 0; i < 50; ++i) { if (Tiny_ToInt(Tiny_CallFunction(&t[0], Tiny_GetFunctionIndex(s, "f"), &(Tiny_Value){.type = TINY_VAL_INT, .i = i}, 1)) != i + 1) bad = 1; if (t[0].sp != sp) { printf("stack grows\n"); return 1; } } return bad; }""",
"many host calls on a thread which hasn't been started or has finished","each leaves a value on the stack, which overflows in the end")
seed("dead-branch-break","P02",[(T,"        case TINY_EXP_IF: {\n            CompileExpr(state, exp->ifx.cond);\n\n            int skipBodyLoc","        case TINY_EXP_IF: {\n            // The body can never run\n            if (exp->ifx.cond->type == TINY_EXP_BOOL && !exp->ifx.cond->boolean && !exp->ifx.alt) {\n                break;\n            }\n\n            CompileExpr(state, exp->ifx.cond);\n\n            int skipBodyLoc"),
 (T,"            int skipBodyLoc = GenerateJump(state, TINY_OP_GOTOZ, 0);\n\n            if (exp->ifx.body) CompileStatement(state, exp->ifx.body);\n\n            if (exp->ifx.alt) {","            int skipBodyLoc = GenerateJump(state, TINY_OP_GOTOZ, 0);\n\n            if (exp->ifx.body) {\n                CompileStatement(state, exp->ifx.body);\n            }\n\n            if (exp->ifx.alt) {")],
r"""int main(void) { prog("if false { out(1) } out(2)", "2\n"); prog("out(9) i := 0 while i < 3 { if false { break } i += 1 out(i) }", "9\n1\n2\n3\n"); return bad; }""",
"a break or continue in an if with the literal condition false","the jump of the break is written over other code")
seed("param-prefix","P36",[(T,"            assert(sym->type == TINY_SYM_LOCAL);\n\n            if (strcmp(sym->name, name) == 0) {\n                return sym;\n            }\n        }\n    }","            assert(sym->type == TINY_SYM_LOCAL);\n\n            if (strncmp(sym->name, name, strlen(name)) == 0) {\n                return sym;\n            }\n        }\n    }")],
r"""int main(void) { prog("func f(x: int, y: int): int { return x * 10 + y } out(f(1, 2))", "12\n"); prog("func f(xy: int, x: int): int { return x * 10 + xy } out(f(1, 2))", "21\n"); return bad; }""",
"a parameter whose name is the beginning of an earlier one's, or a global used in a function with such a parameter","it refers to the earlier parameter")
seed("dict-keys-strings-only","P08",[(S,"            Tiny_ProtectFromGC(key);\n","            if (Tiny_ToString(key)) Tiny_ProtectFromGC(key);\n")],
r"""static Tiny_Value gc(Tiny_StateThread *t, const Tiny_Value *a, int n) { t->maxNumObjects = 0; return Tiny_Null; }
static long freed; static void fin(Tiny_Context *c, void *p) { freed++; } static const Tiny_NativeProp P = {"p", NULL, fin}; static int tag;
static Tiny_Value mk(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewNative(t, &tag, &P); }
int main(void) { Tiny_State *s = newState(); Tiny_BindFunction(s, "gc(): void", gc); Tiny_BindFunction(s, "mk(): any", mk); Tiny_CompileString(s, "m", "d := dict(strcat(\"a\", \"b\"), 1) gc() gc() out(dict_get(d, \"ab\")) e := dict(mk(), 2) gc() gc() out(1)"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("strings", OUT, "1\n1\n"); if (freed) { printf("key freed\n"); bad = 1; } return bad; }""",
"a struct or native key which only the dictionary refers to, and a collection","the key is freed")
seed("finalizer-needs-address","P09",[(T,"        if (obj->nat.prop && obj->nat.prop->finalize) {","        if (obj->nat.prop && obj->nat.addr && obj->nat.prop->finalize) {")],
r"""static long freed; static void fin(Tiny_Context *c, void *p) { freed++; } static const Tiny_NativeProp P = {"p", NULL, fin}; static int tag;
static Tiny_Value mk(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewNative(t, Tiny_ToBool(a[0]) ? &tag : NULL, &P); }
static void go(const char *src) { Tiny_State *s = newState(); Tiny_BindFunction(s, "mk(bool): any", mk); Tiny_CompileString(s, "m", src); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); Tiny_DeleteState(s); }
int main(void) { go("mk(true)"); if (freed != 1) bad = 1; go("mk(false)"); if (freed != 2) bad = 1; return bad; }""",
"a native with a null address","its finalizer never runs")
seed("remove-reads-past-end","P16",[(A,"    memmove(&array->data[index], &array->data[(index + 1)], sizeof(Tiny_Value) * (len - index - 1));","    memmove(&array->data[index], &array->data[(index + 1)], sizeof(Tiny_Value) * (len - index));")],
r"""#include <sys/mman.h>
// Each block ends right before a page which can't be accessed
static void *guard(void *p, size_t k, void *u) { void *q = NULL; if (k) { size_t room = (k + 16 + 4095) / 4096 * 4096; char *m = mmap(NULL, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + room, 4096, PROT_NONE); q = m + room - (k + 7) / 8 * 8; memset(m, 0, room); ((size_t *)q)[-1] = k; if (p) memcpy(q, p, ((size_t *)p)[-1] < k ? ((size_t *)p)[-1] : k); } return q; }
int main(void) { Tiny_State *s = newState(); Tiny_CompileString(s, "m", "use array(\"int\") as ai a := ai(1, 2, 3) ai_remove(a, 1) out(a[0], a[1], ai_len(a)) i := 0 b := ai() while i < 40 { ai_push(b, i) i += 1 if i > 30 { ai_remove(b, 0) ai_push(b, i) ai_push(b, i) ai_remove(b, 5) ai_remove(b, ai_len(b) - 1) } } out(ai_len(b))"); Tiny_StateThread t; Tiny_InitThreadWithContext(&t, s, (Tiny_Context){guard, 0}); Tiny_StartThread(&t); Tiny_Run(&t); is("remove", OUT, "1 3 2\n30\n"); return bad; }""",
"removing from an array which fills its memory completely","memory behind the array is read")
seed("locals-256","P29",[(T,"            if (sb_count(exp->proc.decl->func.locals) > 0xff) {","            if (sb_count(exp->proc.decl->func.locals) > 0x100) {")],
r"""int main(void) { static char src[20000]; for (int n = 250; n < 260; ++n) { int k = sprintf(src, "func f(): int {\n"); for (int i = 0; i < n; ++i) k += sprintf(src + k, "v%d := %d\n", i, i); sprintf(src + k, "return 0 }"); Tiny_State *s = newState(); int ok = Tiny_CompileString(s, "m", src).type == TINY_COMPILE_SUCCESS; if (ok != (n <= 255)) { printf("%d locals: %d\n", n, ok); bad = 1; } Tiny_DeleteState(s); } return bad; }""",
"a function with exactly 256 locals","it is accepted and its locals have no room on the stack")
