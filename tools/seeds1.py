from mkseed import seed
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"
seed("compare-by-difference","P01",[(T,"            result = a->i operator b.i;                                          \\","            result = (a->i - b.i) operator 0;                                    \\")],
r'''int main(void) { prog("a := 9223372036854775807 b := -9223372036854775807 out(a > b, b < a, a >= b, b <= a, a < b, 3 < 4, 4 < 3)", "true true true true false true false\n"); return bad; }''',
"an int comparison whose operands are more than 2^63 apart","<, >, <= and >= on ints compare the wrapped difference with 0")
seed("continue-in-else-breaks","P02",[(T,"            PatchBreakContinue(state, body->ifx.alt, breakPC, continuePC);","            if (body->ifx.alt && body->ifx.alt->type == TINY_EXP_BLOCK)\n                PatchBreakContinue(state, body->ifx.alt, breakPC, continuePC);\n            else\n                PatchBreakContinue(state, body->ifx.alt, breakPC, breakPC);")],
r'''int main(void) { prog("for i := 0; i < 4; i += 1 { if i == 0 { out(0) } else if i == 1 { continue } else { out(i) } }", "0\n2\n3\n"); return bad; }''',
"a continue in an else branch which is not a block of its own, such as an else-if","the continue jumps to the end of the loop")
seed("stale-return-value","P03",[(T,"            thread->retVal = Tiny_Null;\n            DoPopIndir(thread);","            DoPopIndir(thread);")],
r'''int main(void) { prog("func g(): int { return 7 } func f(x: int): any { g() if x > 0 { return x } } out(f(1)) out(f(0))", "1\nnull\n"); return bad; }''',
"a function which ends without returning after it has called another function, and whose value is used","the value of the last inner call is returned instead of null")
seed("scope-closing-stops-early","P04",[(T,"""        for (int i = 0; i < sb_count(state->currFunc->func.locals); ++i) {
            Tiny_Symbol *sym = state->currFunc->func.locals[i];

            assert(sym->type == TINY_SYM_LOCAL);

            if (sym->var.scope == state->currScope) {
                sym->var.scopeEnded = true;
            }
        }
""","""        // The locals of the innermost scope are the last ones
        for (int i = sb_count(state->currFunc->func.locals) - 1; i >= 0; --i) {
            Tiny_Symbol *sym = state->currFunc->func.locals[i];

            assert(sym->type == TINY_SYM_LOCAL);

            if (sym->var.scope != state->currScope) break;

            sym->var.scopeEnded = true;
        }
""")],
r'''int main(void) { prog("x := 1 func f() { if true { x := 2 if true { y := 3 out(y) } out(x) } out(x) } f()", "3\n2\n1\n"); return bad; }''',
"a scope which declares a local and then contains another scope which declares locals","the local stays visible after its scope has ended")
seed("retval-not-restored","P15",[(T,"    thread->retVal = retVal;\n\n    return newRetVal;","    return newRetVal;")],
r'''int main(void) {
    Tiny_State *s = newState();
    if (Tiny_CompileString(s, "m", "func f(): int { return 1 } func h(): int { return 99 } out(f() + 1)").type) return 2;
    for (int stop = 0; stop < 30; ++stop) {
        Tiny_StateThread t;
        Tiny_InitThread(&t, s);
        Tiny_StartThread(&t);
        used = 0;
        for (int k = 0; k < stop && Tiny_ExecuteCycle(&t); ++k);
        Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "h"), NULL, 0);
        Tiny_Run(&t);
        if (stop < 9) is("stopped", OUT, "2\n");
        Tiny_DestroyThread(&t);
    }
    return bad; }''',
"a host call while the thread is suspended between a return and the instruction which takes the returned value","the interrupted program sees the value returned to the host")
seed("retval-is-no-root","P08",[(T,"    Tiny_ProtectFromGC(thread->retVal);\n","")],
r'''static Tiny_Value mk(Tiny_StateThread *thread, const Tiny_Value *args, int count) { thread->maxNumObjects = 0; return Tiny_NewStringCopy(thread, "fresh", 5); }
int main(void) {
    Tiny_State *s = newState();
    Tiny_BindFunction(s, "mk(): str", mk);
    if (Tiny_CompileString(s, "m", "out(mk())").type) return 2;
    Tiny_StateThread t;
    Tiny_InitThread(&t, s);
    Tiny_StartThread(&t);
    while (Tiny_ExecuteCycle(&t)) if (t.retVal.type == TINY_VAL_STRING && t.numObjects == 0) { printf("collected\n"); return 1; }
    is("made", OUT, "fresh\n");
    return bad; }''',
"a collection at the end of the very instruction which calls a bound function that returns a new object","the returned object is freed before it is used")
seed("threshold-creeps","P09",[(T,"    thread->maxNumObjects = thread->numObjects * 2;","    thread->maxNumObjects += thread->numObjects;")],
r'''int main(void) {
    Tiny_State *s = newState();
    if (Tiny_CompileString(s, "m", "use array(\"any\") as arr struct B { x: int } keep := arr() for i := 0; i < 100; i += 1 { arr_push(keep, new B{i}) } for j := 0; j < 300000; j += 1 { b := new B{j} out(1) }").type) { return 2; }
    Tiny_StateThread t;
    Tiny_InitThread(&t, s);
    Tiny_StartThread(&t);
    int most = 0;
    while (Tiny_ExecuteCycle(&t)) { used = 0; if (t.numObjects > most) most = t.numObjects; }
    if (most > 5000) { printf("%d objects\n", most); return 1; }
    return 0; }''',
"a program with some live data which runs for many collections","the collection threshold grows with every collection, so garbage accumulates although the live data is bounded")
seed("nullable-name-overflow","P12",[(T,"""    snprintf(nameBuf, sizeof(nameBuf), "%s?", GetTagName(inner));""","""    sprintf(nameBuf, "%s?", GetTagName(inner));""")],
r'''int main(void) {
    char src[3000], n[601];
    memset(n, 'A', 600); n[600] = 0;
    snprintf(src, sizeof src, "struct %s { a: int } func f(x: %s?) { }", n, n);
    char *volatile p = malloc(10); free(p);
    return strcmp(run(src), "") != 0; }''',
"a nullable of a type whose name is longer than 254 characters","the name is written past a buffer on the stack")
seed("remove-keeps-displaced","P17",[(D,"        } else if ((HashValue(keyHere) % dict->bucketCount) != index) {","        } else if ((HashValue(keyHere) % dict->bucketCount) == origin) {")],
r'''int main(void) { prog("d := dict() dict_put(d, 1, \"a\") dict_put(d, 33, \"b\") dict_put(d, 2, \"c\") dict_remove(d, 1) out(dict_get(d, 33), dict_get(d, 2), dict_get(d, 1))", "b c null\n"); return bad; }''',
"a removal from a cluster which contains a key displaced by another key's displacement","keys which were displaced by displaced keys are not found any more")
seed("keyword-prefix","P20",[(L,'''        if (strcmp(l->lexeme, "cast") == 0) return TINY_TOK_CAST;''','''        if (strncmp(l->lexeme, "cast", 4) == 0) return TINY_TOK_CAST;''')],
r'''int main(void) { prog("castle := 3 out(castle)", "3\n"); return bad; }''',
"an identifier which begins with a certain keyword","the identifier is taken for the keyword")
seed("insert-at-old-storage","P16",[(A,"""    sb_add(&array->ctx, array->data, 1);

    memmove(&array->data[index + 1], &array->data[index], sizeof(Tiny_Value) * (len - index));
    memcpy(&array->data[index], &value, sizeof(Tiny_Value));""","""    Tiny_Value *at = &array->data[index];

    sb_add(&array->ctx, array->data, 1);

    memmove(at + 1, at, sizeof(Tiny_Value) * (len - index));
    memcpy(at, &value, sizeof(Tiny_Value));""")],
r'''static void *move(void *p, size_t n, void *u) {
    if (!n) { free(p); return NULL; }
    char *q = malloc(n + 16);
    *(size_t *)q = n;
    return q;
}
static void *al(void *p, size_t n, void *u) {       // moves every block it resizes
    char *h = p ? (char *)p - 16 : 0;
    if (!n) { free(h); return NULL; }
    char *q = malloc(n + 16);
    if (h) memcpy(q + 16, p, *(size_t *)h < n ? *(size_t *)h : n);
    *(size_t *)q = n;
    free(h);
    return q + 16;
}
int main(void) {
    Tiny_State *s = newState();
    if (Tiny_CompileString(s, "m", "use array(\"int\") as ai func f() { for n := 1; n < 70; n += 1 { a := ai() for i := 0; i < n; i += 1 { ai_push(a, i) } ai_insert(a, 0, 1000) for i := 0; i <= n; i += 1 { if a[i] != (if i == 0 1000 else i - 1) { out(n, i, a[i]) } } } } f() out(1)").type) return 2;
    Tiny_StateThread t;
    Tiny_InitThreadWithContext(&t, s, (Tiny_Context){al});
    Tiny_StartThread(&t);
    Tiny_Run(&t);
    is("inserting", OUT, "1\n");
    return bad; }''',
"an insert which makes the array grow to a new place","the elements of the old storage are changed instead of the new one")
