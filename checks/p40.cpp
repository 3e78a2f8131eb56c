// P40: a thread can be run again; what the host did before counts.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
// Globals which are null at the first run: their declarations are never executed.
static const string PRE = "struct P { v: int n: any }\nuse array(\"int\") as ai\nif cb() { c: any = null w: any = null k: any = null }\n"
                          "func num(x: any): int { if x == null return 0 return cast(x, int) }\n";
static const char *BODY[] = {
    "c = cast(num(c) + 1, any) out(c)",
    "if c == null { c = cast(0, any) out(\"first\") } else { c = cast(num(c) + 1, any) out(\"again\") }",
    "i := num(c) while i < num(c) + 3 { i += 1 out(i) } c = cast(i, any)",
    "for i := 0; i < 3; i += 1 { if i == num(c) { out(i) break } } c = cast(num(c) + 1, any)",
    "p := new P{num(c), k} if num(c) < 6 { k = cast(p, any) } c = cast(num(c) + 1, any) out(p)",
    "if k == null { k = cast(\"\", any) } k = cast(strcat(cast(k, str), \"x\"), any) out(k, strlen(cast(k, str)))",
    "if k == null { k = cast(ai(7), any) } a := cast(k, ai) ai_push(a, num(c)) c = cast(ai_len(a), any) out(c, a[0], a[ai_len(a) - 1])",
    "if k == null { k = cast(dict(), any) } d := cast(k, dict) dict_put(d, strcat(\"k\", \"1\"), num(c) + 1) c = cast(num(c) + 2, any) out(dict_get(d, \"k1\"))",
    "s := strcat(\"a\", \"b\") if k != null { s = strcat(cast(k, str), s) } k = cast(s, any) if strlen(s) > 9 { k = null } out(s)",
    "func r(n: int): int { if n < 1 return num(c) t := r(n - 1) c = cast(t + 1, any) return t + 1 } out(r(4), r(2))",
    "q := new P{1, null} q.n = cast(q, any) k = cast(q, any) out(q.v) q.v = num(c) c = cast(q.v + 5, any)",
    "{ x := num(c) + 10 { y := x * 2 c = cast(y, any) } } out(c) b := num(c) > 30 if b { c = null }",
    "out(if c == null 1 else 2) c = w w = cast(\"lit\", any) out(c == w)",
    "g := 5 g += num(c) c = cast(g, any) f2 := 0.5 f2 *= 3.0 out(g, f2) k = cast(f2, any)",
    "",
    "out(hs(\"n\", num(c))) k = cast(hs(\"m\", num(c)), any) c = cast(num(c) + 1, any) w = k",
};
static const int NBODY = sizeof(BODY) / sizeof(BODY[0]);
static const string FUNCS = "\nfunc f(a: int): any { t := strcat(\"f\", \"g\") c = cast(a, any) w = cast(t, any) return k }\nfunc g(): any { return c }\nfunc h(p: P, s: str): P { u := new P{p.v + 1, cast(s, any)} if w == null { w = cast(u, any) } return u }\n";
static const char *TAIL[] = {"", "out(c, w)", "func last(): int { while true { if 1 < 2 { return 3 } } } last()"};
// Operations. Each is done on the real thread and on the machine of the reference.
enum { RUN, CF, CG, CH, SETC, GC, DROP, NOPS };
static const char *ON[] = {"run", "call f(3)", "call g()", "call h(new P, string)", "set c", "collect", "set k to null"};
// Blocks a thread holds.
static void *counted(void *p, size_t n, void *u) {
    long &live = *(long *)u;
    if (n == 0) { if (p) --live; free(p); return nullptr; }
    if (!p) ++live;
    return realloc(p, n);
}
struct World {
    long live[2] = {0, 0};
    df::Duo &D;
    Tiny_StateThread t[2];
    bool up[2] = {false, false}, touched[2] = {false, false};
    ref::Machine *M[2] = {nullptr, nullptr};
    int gc;
    World(df::Duo &d, int gc_) : D(d), gc(gc_) {
        D.R.log.clear(); D.R.nats.clear(); D.R.strs.clear(); D.R.nextNat = 1;
        for (auto n : D.I.log.nats) delete n;
        D.I.log.nats.clear(); D.I.log.out.clear(); D.I.log.nextNat = 1;
    }
    ~World() { for (int i = 0; i < 2; ++i) { if (up[i]) Tiny_DestroyThread(&t[i]); delete M[i]; } }
    void need(int i) {
        if (up[i]) return;
        Tiny_InitThreadWithContext(&t[i], D.I.s, Tiny_Context{counted, &live[i]});
        t[i].userdata = &D.I.log;
        up[i] = true;
        M[i] = new ref::Machine(D.R.S);
        M[i]->globals.resize(D.R.S.nGlobals);
    }
    ref::Val callRef(int i, const char *n, std::vector<ref::Val> a) { M[i]->steps = 0; return M[i]->callByName(n, a); }
    Tiny_Value callImpl(int i, const char *n, std::vector<Tiny_Value> a) { return Tiny_CallFunction(&t[i], Tiny_GetFunctionIndex(D.I.s, n), a.data(), (int)a.size()); }
    void step(int i, int op, int at, const string &what) {
        need(i);
        D.R.M = M[i];
        Tiny_StateThread *T = &t[i];
        if (gc == 1) T->maxNumObjects = 0;
        string want, got;
        switch (op) {
            case RUN: {
                M[i]->steps = 0;
                M[i]->run();
                Tiny_StartThread(T);
                long n = 0;
                while (!Tiny_IsThreadDone(T)) {
                    if (++n > 100000) mc::fail("the program does not end\n%s", what.c_str());
                    if (gc == 1) T->maxNumObjects = 0;
                    if (!Tiny_ExecuteCycle(T)) break;
                    uint64_t k[4] = {D.h, (uint64_t)T->pc << 32 | (uint32_t)T->sp, (uint64_t)at * 16 + (uint64_t)i * 8 + (uint64_t)T->fc, D.I.log.out.size()};
                    mc::noteState(mc::hash(k, sizeof k));
                }
                mc::noteTransitions(n);
                mc::noteRun();
                touched[i] = true;
                break;
            }
            case CF: ref::show(want, callRef(i, "f", {ref::Val::mkInt(3)})); df::showT(got, callImpl(i, "f", {Tiny_NewInt(3)})); touched[i] = true; break;
            case CG: ref::show(want, callRef(i, "g", {})); df::showT(got, callImpl(i, "g", {})); touched[i] = true; break;
            case CH: {
                ref::Val p = callRef(i, "mk", {ref::Val::mkInt(at)});
                ref::show(want, callRef(i, "h", {p, M[i]->strVal("host")}));
                Tiny_Value a = callImpl(i, "mk", {Tiny_NewInt(at)});
                df::showT(got, callImpl(i, "h", {a, Tiny_NewConstString("host")}));
                touched[i] = true;
                break;
            }
            case SETC: case DROP: {
                if (!touched[i]) return;
                const char *n = op == SETC ? "c" : "k";
                for (auto g : D.R.S.globals) if (g->name == n) M[i]->globals[g->slot] = op == SETC ? ref::Val::mkInt(at + 2) : ref::Val{};
                Tiny_SetGlobal(T, Tiny_GetGlobalIndex(D.I.s, n), op == SETC ? Tiny_NewInt(at + 2) : Tiny_Null);
                break;
            }
            case GC: T->maxNumObjects = 0; break;      // the next allocation collects
        }
        mc::noteTrace();
        if (got != want && want.find("O-") == string::npos) mc::fail("%s gives %s, expected %s\n%s", ON[op], got.c_str(), want.c_str(), what.c_str());
        if (D.I.log.out != D.R.log) mc::fail("different behaviour %s\n%s", df::differ(D.R.log, D.I.log.out).c_str(), what.c_str());
        if (!Tiny_IsThreadDone(T) || T->sp || T->fc) mc::fail("thread not finished, or its stacks not empty: %d values, %d frames\n%s", T->sp, T->fc, what.c_str());
        for (int q = 0; q < 2; ++q) if (touched[q])
            for (auto g : D.R.S.globals) {
                if (g->k != ref::Var::Global || (g->name != "c" && g->name != "w" && g->name != "k")) continue;
                string a, b;
                df::showT(a, Tiny_GetGlobal(&t[q], Tiny_GetGlobalIndex(D.I.s, g->name.c_str())));
                ref::show(b, M[q]->globals[g->slot]);
                if (a != b && b.find("O-") == string::npos) mc::fail("global %s of thread %d is %s, expected %s\n%s", g->name.c_str(), q, a.c_str(), b.c_str(), what.c_str());
            }
    }
};
static df::Opt opt;
static int LEN, LEN2;
static string program(int b, int tail) { return PRE + "func mk(v: int): P { return new P{v, null} }\n" + BODY[b] + "\n" + TAIL[tail] + FUNCS; }
static void history(uint64_t i, int threads) {
    mc::Digits d(i);
    int b = (int)d(NBODY), tail = (int)d(3), gc = (int)d(2);
    auto ops = mc::seqAt((uint64_t)NOPS * threads, d.v);
    string what;
    for (int o : ops) what += string(ON[o % NOPS]) + (threads > 1 ? o / NOPS ? " on B; " : " on A; " : "; ");
    what += "\n--- program\n" + program(b, tail);
    static std::map<int, df::Duo *> memo;       // each program is compiled once for all its histories
    df::Duo *&D = memo[b * 3 + tail];
    if (!D) {
        D = new df::Duo(opt);
        if (!D->compile(program(b, tail))) mc::fail("rejected: %s\n%s", D->I.err.c_str(), what.c_str());
    }
    World W(*D, gc);
    int at = 0;
    try {
        for (int o2 : ops) W.step(o2 / NOPS, o2 % NOPS, at++, what);
        for (int q = 0; q < 2; ++q) {
            if (!W.up[q]) continue;
            Tiny_DestroyThread(&W.t[q]);
            W.up[q] = false;
            if (W.live[q]) mc::fail("%ld blocks of thread %d are left when it is destroyed\n%s", W.live[q], q, what.c_str());
        }
    } catch (ref::Skip &e) {
        static const char *whyFile = getenv("VERIF_WHY");
        if (whyFile) { FILE *f = fopen(whyFile, "a"); fprintf(f, "skip: %s\n", e.why.c_str()); fclose(f); }
        mc::noteSkip();
    }
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto ob = opt.binder;
        auto orb = opt.refBinder;
        opt.binder = [ob](Tiny_State *s) { ob(s); Tiny_BindFunction(s, "cb(): bool", [](Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewBool(false); }); };
        opt.refBinder = [orb](df::RefEnv &R) { if (orb) orb(R); R.S.bind("cb(): bool", [](std::vector<ref::Val> &) { return ref::Val::mkBool(false); }); };
        LEN = mc::thorough ? 6 : 4;
        LEN2 = mc::thorough ? 4 : 3;
        mc::family("again", (uint64_t)NBODY * 3 * 2 * mc::seqCount(NOPS, LEN), [](uint64_t i) { history(i, 1); });
        mc::family("two", (uint64_t)NBODY * 3 * 2 * mc::seqCount(NOPS * 2, LEN2), [](uint64_t i) { history(i, 2); });
    });
}
