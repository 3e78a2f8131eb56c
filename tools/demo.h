// Helpers of the demonstrations: run(source) compiles and runs a program; its calls of out(...) are
// appended to OUT, one line for each.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include "tiny.h"
#include "arena.h"
static char OUT[1 << 20];
static size_t used;
static void show(Tiny_Value v) {
    char *p = OUT + used;
    size_t room = sizeof OUT - used;
    switch (v.type) {
        case TINY_VAL_NULL: used += snprintf(p, room, "null"); break;
        case TINY_VAL_BOOL: used += snprintf(p, room, Tiny_ToBool(v) ? "true" : "false"); break;
        case TINY_VAL_INT: used += snprintf(p, room, "%lld", (long long)Tiny_ToInt(v)); break;
        case TINY_VAL_FLOAT: used += snprintf(p, room, "%g", Tiny_ToFloat(v)); break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: used += snprintf(p, room, "%s", Tiny_ToString(v)); break;
        default: used += snprintf(p, room, "<%d>", v.type);
    }
}
static Tiny_Value demoOut(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
    for (int i = 0; i < count; ++i) {
        if (i) OUT[used++] = ' ';
        show(args[i]);
    }
    OUT[used++] = '\n';
    OUT[used] = 0;
    return Tiny_Null;
}
static Tiny_State *newState(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindStandardIO(s);
    Tiny_BindStandardLib(s);
    Tiny_BindI64(s);
    Tiny_BindFunction(s, "out(...): void", demoOut);
    return s;
}
static char ERR[2000];
static const char *run(const char *src) {
    Tiny_State *s = newState();
    used = 0;
    OUT[0] = 0;
    Tiny_CompileResult r = Tiny_CompileString(s, "main", src);
    if (r.type != TINY_COMPILE_SUCCESS) { snprintf(ERR, sizeof ERR, "%s", r.error.msg); Tiny_DeleteState(s); return "rejected"; }
    Tiny_StateThread t;
    Tiny_InitThread(&t, s);
    Tiny_StartThread(&t);
    Tiny_Run(&t);
    Tiny_DestroyThread(&t);
    Tiny_DeleteState(s);
    return OUT;
}
static int bad;
static void is(const char *what, const char *got, const char *want) {
    if (strcmp(got, want)) { printf("%s: got `%s`, want `%s`\n", what, got, want); bad = 1; }
}
static void prog(const char *src, const char *want) { is(src, run(src), want); }
