// P15: host calls into script functions are transparent and re-entrant.
#include "stdref.hpp"
#include "corpus.hpp"
#include "roles.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
// ---------------------------------------------------------------- calls between any two instructions
static const char *Q =
    "struct QS { v: int s: any }\n"
    "qc := 0 qs := \"\" qp := new QS{0, null}\n"
    "func q0() { qc += 1 }\n"
    "func q1(a: int): int { qc += a return a * 2 }\n"
    "func q2(a: str, b: any): any { s := strcat(a, \"x\") qs = s return b }\n"
    "func q3(n: int): int { if n < 2 { return n } return q3(n - 1) + q3(n - 2) }\n"
    "func q4(v: int): QS { t := new QS{v, hs(\"t\", v)} qp = t return t }\n"
    "func q5(a: float, b: bool, c: int, d: str, e: any): any { x := 1 y := 2.5 z := d { w := z x += c } if b { return z } return x }\n"
    "func q6(p: QS): int { p.v = p.v + 1 return p.v }\n"
    "func q7(): str { }\n"
    "func q8(n: int): int { i := 0 s := 0 while true { i += 1 if i > n { break } if i == 2 { continue } s += cast(callback(\"q1\", i), int) } return s }\n"
    "func q9(d: int): any { if d == 0 { return hs(\"deep\") } return callback(\"q9\", d - 1) }\n"
    "func qa(d: int): int { qb(d) qb(d) return d }\n"
    "func qb(d: int) { x := hs(\"tmp\", d) }\n";
static const int NQ = 12;
static const char *QN[] = {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9", "qa", "qb"};
struct Call { string want, got; long qc = 0; };
static Tiny_Value call(Tiny_StateThread *t, const char *n, std::vector<Tiny_Value> a) {
    return Tiny_CallFunction(t, Tiny_GetFunctionIndex(t->state, n), a.data(), (int)a.size());
}
// Performs one call and compares its result.
static long perform(Tiny_StateThread *t, int f, bool qpOk) {
    string want, got;
    long qc = 0;
    Tiny_Value r;
    auto I_ = [](long v) { return Tiny_NewInt(v); };
    bool alive = t->pc >= 0;
    switch (f) {
        case 0: r = call(t, "q0", {}); want = "N"; qc = 1; break;
        case 1: r = call(t, "q1", {I_(21)}); want = "I42"; qc = 21; break;
        case 2: r = call(t, "q2", {Tiny_NewStringCopy(t, "host", 4), I_(-7)}); want = "I-7"; break;
        case 3: r = call(t, "q3", {I_(5)}); want = "I5"; break;
        case 4: r = call(t, "q4", {I_(3)}); want = "{I3,S2:t3}"; break;
        case 5: r = call(t, "q5", {Tiny_NewFloat(1.5), Tiny_NewBool(true), I_(9), Tiny_NewConstString("five"), Tiny_Null}); want = "S4:five"; break;
        case 6: {
            Tiny_Value p = call(t, "q4", {I_(30)});
            r = call(t, "q6", {p});
            want = "I31"; break;
        }
        case 7: r = call(t, "q7", {}); want = "N"; break;
        case 8: r = call(t, "q8", {I_(4)}); want = "I16"; qc = 1 + 3 + 4; break;
        case 9: r = call(t, "q9", {I_(3)}); want = "S4:deep"; break;
        case 10: r = call(t, "qa", {I_(6)}); want = "I6"; break;
        default: r = call(t, "qb", {I_(6)}); want = "N"; break;
    }
    df::showT(got, r);
    mc::noteTrace();
    if (got != want) mc::fail("calling %s from the host returns %s instead of %s", QN[f], got.c_str(), want.c_str());
    if (alive != (t->pc >= 0)) mc::fail("calling %s %s the thread", QN[f], alive ? "ends" : "revives");
    return qc;
}
static Tiny_State *state(const string &src) {
    static std::map<string, Tiny_State *> memo;
    auto &s = memo[src];
    if (!s) {
        s = Tiny_CreateState();
        df::stdOpt().binder(s);
        Tiny_BindFunction(s, "callback(str, ...): any", roles::fCallBack);
        string all = string(Q) + src;
        Tiny_CompileResult r = Tiny_CompileString(s, "main", all.c_str());
        if (r.type != TINY_COMPILE_SUCCESS) mc::fail("rejected: %s\n%s", r.error.msg, all.c_str());
    }
    return s;
}
struct Ran { string out; long cycles, init; };
struct Point { long at; int f; };
// Runs the program; before the instructions listed in `p` the host calls.  gc: 0 leave, 1 collect in the calls, 2 always
static Ran run(const string &src, const std::vector<Point> &p, int gc, int every = -1) {
    Tiny_State *s = state(src);
    Tiny_StateThread t;
    df::Log log;
    Tiny_InitThread(&t, s);
    t.userdata = &log;
    Tiny_StartThread(&t);
    Ran r{"", 0, -1};
    long qc = 0;
    size_t k = 0;
    int gp = Tiny_GetGlobalIndex(s, "qp"), gc_ = Tiny_GetGlobalIndex(s, "qc");
    while (!Tiny_IsThreadDone(&t)) {
        if (r.init < 0 && Tiny_GetGlobal(&t, gp).type == TINY_VAL_STRUCT) r.init = r.cycles;
        auto one = [&](int f) {
            int pc = t.pc, sp = t.sp, fp = t.fp, fc = t.fc;
            if (gc) t.maxNumObjects = 0;
            qc += perform(&t, f, true);
            if (pc != t.pc || sp != t.sp || fp != t.fp || fc != t.fc) mc::fail("calling %s after %ld instructions leaves the thread elsewhere (pc %d->%d, sp %d->%d, fp %d->%d, frames %d->%d)\n%s", QN[f], r.cycles, pc, t.pc, sp, t.sp, fp, t.fp, fc, t.fc, src.c_str());
        };
        while (k < p.size() && p[k].at == r.cycles) one(p[k++].f);
        if (every >= 0 && r.init >= 0) one((int)((every + r.cycles) % NQ));
        if (gc == 2) t.maxNumObjects = 0;
        if (!Tiny_ExecuteCycle(&t)) break;
        ++r.cycles;
        if (r.cycles > 100000) mc::fail("does not end");
        uint64_t key[4] = {mc::hash(src), (uint64_t)r.cycles, k < p.size() ? (uint64_t)p[k].f : 99, (uint64_t)gc};
        mc::noteState(mc::hash(key, sizeof key));
    }
    mc::noteTransitions(r.cycles);
    mc::noteRun();
    if (t.sp || t.fc) mc::fail("stacks not empty at the end\n%s", src.c_str());
    long got = (long)Tiny_ToInt(Tiny_GetGlobal(&t, gc_));
    if (got != qc) mc::fail("the calls' own effects add up to %ld instead of %ld\n%s", got, qc, src.c_str());
    r.out = log.out;
    Tiny_DestroyThread(&t);
    for (auto n : log.nats) delete n;
    return r;
}
static const Ran &plain(const string &src) {
    static std::map<string, Ran> memo;
    if (!memo.count(src)) memo[src] = run(src, {}, 0);
    return memo[src];
}
static void interrupted(const string &src, const std::vector<Point> &p, int gc, int every = -1) {
    const Ran &w = plain(src);
    for (auto &x : p) if (x.at < w.init || x.at >= w.cycles) return;
    Ran r = run(src, p, gc, every);
    string where;
    for (auto &x : p) where += string(QN[x.f]) + "@" + I(x.at) + " ";
    if (r.out != w.out) mc::fail("the interrupted program behaves differently %s\n--- host calls before instructions %s\n--- program\n%s", df::differ(w.out, r.out).c_str(), where.c_str(), src.c_str());
    if (r.cycles != w.cycles) mc::fail("the interrupted program takes %ld instructions instead of %ld\n--- host calls before instructions %s\n--- program\n%s", r.cycles, w.cycles, where.c_str(), src.c_str());
}
static std::vector<string> PROGS;
static const char *SMALL[] = {
    "func z(): int { return 5 } out(z() + z())", "func z(x: int): int { y := x return y } out(z(1), z(z(2)))", "func z(): str { return hs(\"r\") } a9 := z() out(a9, z())",
    "struct Z { q: any } a9 := new Z{new Z{hs(\"x\")}} out(a9)", "a9 := 0 while a9 < 2 { a9 += 1 out(a9) }", "func z() { } z() z() out(1)", "func z(n: int): any { if n > 0 { return z(n - 1) } return hs(\"e\") } out(z(2))",
    "out(strcat(hs(\"a\"), hs(\"b\")), 1 == 1)", "func z(a: any): any { return a } out(z(new QS{1, hs(\"k\")}))", "out(callback(\"q3\", 3))",
};
// ---------------------------------------------------------------- calls from bound functions, against the reference
static const char *FN =
    "struct QS { v: int s: any }\n"
    "g := 0 h := \"\"\n"
    "func a(x: int): int { out(\"a\", x) g = g + 1 return x + g }\n"
    "func b(x: int): int { y := x * 2 r := cast(callback(\"a\", y), int) out(\"b\", y, r) return r + y }\n"
    "func c(x: int): int { if x <= 0 { return 1 } if x > 5 { return x } return cast(callback(\"c\", x - 1), int) * 2 + x }\n"
    "func d(x: int) { g = x h = hs(\"d\", x) }\n"
    "func e(x: int): int { s := new QS{x, hs(\"s\")} callback(\"d\", s.v) if s.v > 2 { return s.v } for i := 0; i < 2; i += 1 { s.v += cast(callback(\"a\", i), int) } return s.v }\n"
    "func r(s: QS): QS { t := callback(\"a\", s.v) s.v = cast(t, int) return s }\n"
    "func n(x: int, y: any, z: str): any { q := callback(\"d\", x) return y }\n"
    "func many(x: int): int { l1 := x l2 := l1 + 1 l3 := l2 + 1 { l4 := cast(callback(\"b\", l3), int) l1 = l4 } return l1 + l2 + l3 }\n";
static df::Opt refOpt(long gc) {
    df::Opt o = df::stdOpt();
    auto b = o.binder; auto rb = o.refBinder;
    o.binder = [b](Tiny_State *s) { b(s); Tiny_BindFunction(s, "callback(str, ...): any", roles::fCallBack); };
    o.refBinder = [rb](df::RefEnv &R) {
        rb(R);
        df::RefEnv *P = &R;
        R.S.bind("callback(str, ...): any", [P](std::vector<Val> &a) {
            ref::Func *f = P->S.func(*a[0].s);
            if (!f || f->foreign || f->args.size() != a.size() - 1) throw ref::Skip{"callback"};
            std::vector<Val> x(a.begin() + 1, a.end());
            return P->M->invoke(f, x); });
    };
    o.gc = gc;
    return o;
}
static const char *UN[] = {"cast(callback(\"a\", @), int)", "cast(callback(\"b\", @), int)", "cast(callback(\"c\", @), int)", "cast(callback(\"e\", @), int)", "cast(callback(\"many\", @), int)", "a(@)", "b(@)", "cast(cast(callback(\"r\", new QS{@, null}), QS).v, int)", "cast(callback(\"n\", 1, @, \"z\"), int)", "cast(during(\"b\", cast(@, any), 2), int)", "cast(during(\"many\", cast(@, any), @), int)"};
static const int NUN = 11;
static string tree(uint64_t &v, int ops) {
    static const char *L[] = {"1", "g", "3"};
    if (!ops) { string s = L[v % 3]; v /= 3; return s; }
    int k = (int)(v % (NUN + ops));
    v /= NUN + ops;
    if (k < NUN) {
        string u = UN[k];
        if (u.find("cast(cast") == 0) u = "cast(callback(\"r\", new QS{@, null}), QS).v";
        return sub(u, "@", tree(v, ops - 1));
    }
    int l = k - NUN;
    string a = tree(v, l), b = tree(v, ops - 1 - l);
    return "(" + a + " + " + b + ")";
}
static uint64_t treeCount(int ops) { uint64_t n = 1; for (int i = ops; i; --i) n *= NUN + i; return n * 27; }
static const char *ST[] = {"out(@)", "x := @ out(x, g)", "g = @", "if @ > 4 { out(\"big\") } else { out(\"small\") }", "for i := 0; i < @ && i < 3; i += 1 { out(i) }", "y := new QS{@, null} y.v += @ out(y)", "func w(p: int): int { return p + @ } out(w(1), callback(\"w\", 2))", "z := hs(\"k\") out(callback(\"n\", @, z, \"q\"), z)", "out(@, hs(\"m\"), @)", "callback(\"d\", @) out(g, h)"};
static string stmt(uint64_t i, int ops) {
    mc::Digits d(i);
    string s = ST[d(10)];
    uint64_t v = d.v;
    return sub(s, "@", tree(v, ops));
}
// ---------------------------------------------------------------- histories of one thread
static const char *OPS[] = {"start", "run", "step 1", "step 5", "call q3", "call q5", "call q9", "call q1", "call q4"};
static const int NOPS = 9;
static const char *HP = "out(1) x1 := q3(3) out(x1, hs(\"s\")) for x2 := 0; x2 < 2; x2 += 1 { out(x2) } out(qc)";
static void history(const std::vector<int> &q, int gc) {
    Tiny_State *s = state(HP);
    Tiny_StateThread t;
    df::Log log;
    Tiny_InitThread(&t, s);
    t.userdata = &log;
    bool started = false, init = false;
    const Ran &w = plain(HP);
    string want;
    long qc = 0, at = 0;
    for (int k : q) {
        if (gc) t.maxNumObjects = 0;
        switch (k) {
            case 0:
                if (started && !Tiny_IsThreadDone(&t)) goto end;      // restarting a suspended thread is not defined
                Tiny_StartThread(&t); started = true; at = 0; log.out.clear(); init = false; qc = 0; break;
            case 1: case 2: case 3: {
                if (!started) goto end;
                long n = k == 1 ? 100000 : k == 2 ? 1 : 5;
                if (k == 1) { Tiny_Run(&t); at = w.cycles; break; }
                for (; n && Tiny_ExecuteCycle(&t); --n) ++at;
                break;
            }
            default: {
                static const int F[] = {3, 5, 9, 1, 4};
                int f = F[k - 4];
                if (started && at >= w.init) init = true;
                if ((f == 1 || f == 4) && !init) goto end;           // these use the globals
                if (f == 1 && at < w.cycles) goto end;               // and this one's effect is printed by the program
                bool done = Tiny_IsThreadDone(&t);
                qc += perform(&t, f, true);
                if (Tiny_IsThreadDone(&t) != done) mc::fail("a host call changes whether the thread is done (%d)\n", done);
                break;
            }
        }
        uint64_t key[4] = {(uint64_t)at, (uint64_t)k, (uint64_t)started, (uint64_t)qc};
        mc::noteState(mc::hash(key, sizeof key));
        mc::noteTransitions(1);
    }
    if (started) {
        Tiny_Run(&t);
        if (log.out != w.out) mc::fail("the program behaves differently %s", df::differ(w.out, log.out).c_str());
        if (Tiny_ToInt(Tiny_GetGlobal(&t, Tiny_GetGlobalIndex(s, "qc"))) != qc) mc::fail("the calls' effects are lost");
        if (t.sp || t.fc) mc::fail("stacks not empty");
    }
    mc::noteRun();
end:
    Tiny_DestroyThread(&t);
    for (auto n : log.nats) delete n;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        for (auto &u : corpus::units()) PROGS.push_back(u);
        for (auto x : SMALL) PROGS.push_back(x);
        const int MAXC = 420;
        // one call before any instruction of any program, under three collection modes
        mc::family("one-call", PROGS.size() * MAXC * NQ, [MAXC](uint64_t i) {
            mc::Digits d(i);
            const string &p = PROGS[d(PROGS.size())];
            int f = (int)d(NQ);
            long at = (long)d(MAXC);
            const Ran &w = plain(p);
            if (w.init + at >= w.cycles) return;
            for (int gc = 0; gc < 3; ++gc) interrupted(p, {{w.init + at, f}}, gc);
        });
        mc::family("two-calls", 10 * 120 * 120, [](uint64_t i) {
            mc::Digits d(i);
            string p = SMALL[d(10)];
            long a = (long)d(120), b = (long)d(120);
            const Ran &w = plain(p);
            if (b < a || w.init + b >= w.cycles) return;
            for (int f = 0; f < NQ; ++f) for (int g = 0; g < NQ; g += mc::thorough ? 1 : 3) interrupted(p, {{w.init + a, f}, {w.init + b, (g + f) % NQ}}, (int)((a + b + f + g) % 3));
        });
        mc::family("every-instruction", PROGS.size() * NQ * 3, [](uint64_t i) {
            mc::Digits d(i);
            const string &p = PROGS[d(PROGS.size())];
            int e = (int)d(NQ), gc = (int)d(3);
            interrupted(p, {}, gc, e);
        });
        for (int ops = 1; ops <= (mc::thorough ? 3 : 2); ++ops)
            mc::family("from-bound-" + I(ops), 10 * treeCount(ops), [ops](uint64_t i) {
                static df::Opt o[2] = {refOpt(-1), refOpt(0)};
                df::Opt &O = o[ops == 3 ? i % 2 : 0];
                df::compare(FN + stmt(i, ops) + " out(g, h)", O);
                if (ops < 3) df::compare(FN + stmt(i, ops) + " out(g, h)", o[1]);
            }, [ops](uint64_t i) { return FN + stmt(i, ops); });
        // number of arguments, and depth of nesting of host calls
        mc::family("arguments", 256 * 4, [](uint64_t i) {
            int n = (int)(i % 256), kind = (int)(i / 256);
            string ps, body = "0";
            for (int k = 0; k < n; ++k) { ps += (k ? ", p" : "p") + I(k) + (kind == 1 ? ": any" : ": int"); if (kind != 1) body += " + p" + I(k) + " * " + I(k + 1); }
            string src = kind == 1 ? "func w(" + ps + "): any { l := 1 return " + (n ? "p" + I(n - 1) : string("l")) + " }" : kind == 2 ? "func w(" + ps + "): int { l := 5 { m := 6 l += m } return " + body + " + l }" : "func w(" + ps + "): int { return " + body + " }";
            Tiny_State *s = state(src);
            Tiny_StateThread t;
            df::Log log;
            Tiny_InitThread(&t, s);
            t.userdata = &log;
            std::vector<Tiny_Value> a;
            long want = kind == 2 ? 11 : 0;
            for (int k = 0; k < n; ++k) { a.push_back(Tiny_NewInt(k * 3 + 1)); want += (k * 3 + 1) * (k + 1); }
            if (kind == 1) want = n ? (n - 1) * 3 + 1 : 1;
            if (kind == 3) Tiny_StartThread(&t);
            for (int r = 0; r < 3; ++r) {
                Tiny_Value v = Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "w"), a.data(), n);
                mc::noteTrace();
                if (v.type != TINY_VAL_INT || Tiny_ToInt(v) != want) mc::fail("calling a function with %d arguments returns %lld instead of %ld", n, (long long)Tiny_ToInt(v), want);
            }
            Tiny_DestroyThread(&t);
        });
        mc::family("nesting", 24 * 3, [](uint64_t i) {
            Tiny_State *s = state("");
            Tiny_StateThread t;
            df::Log log;
            Tiny_InitThread(&t, s);
            t.userdata = &log;
            if (i / 24 == 1) { Tiny_StartThread(&t); for (int k = 0; k < 5; ++k) Tiny_ExecuteCycle(&t); }
            if (i / 24 == 2) { Tiny_StartThread(&t); Tiny_Run(&t); }
            string o;
            df::showT(o, call(&t, "q9", {Tiny_NewInt((int)(i % 24))}));
            if (o != "S4:deep") mc::fail("%d nested host calls return %s", (int)(i % 24), o.c_str());
            mc::noteTrace();
            Tiny_DestroyThread(&t);
        });
        mc::family("histories", mc::seqCount(NOPS, mc::thorough ? 7 : 5) * 2, [](uint64_t i) { history(mc::seqAt(NOPS, i / 2), (int)(i & 1)); },
                   [](uint64_t i) { string s; for (int k : mc::seqAt(NOPS, i / 2)) s += string(OPS[k]) + "; "; return s; });
    });
}
