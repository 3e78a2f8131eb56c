// P16: arrays behave as growable sequences.
#include "direct.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
// ---------------------------------------------------------------- the bound functions driven directly
static Direct &D() { static Direct *d = new Direct("struct S { v: int } use array(\"int\") as ai use array(\"any\") as aa use array(\"str\") as as_ use array(\"float\") as af use array(\"bool\") as ab use array(\"S\") as at func mks(v: int): S { return new S{v} }"); return *d; }
enum { PUSH, POP, SHIFT, INS0, INSM, INSL, REM0, REMM, REML, SET0, SETM, SETL, RES0, RESM, RESP, RESB, FILM, FILP, FILB, CLEAR, SORT, NOP };
static const char *OPN[] = {"push", "pop", "shift", "insert first", "insert middle", "insert last", "remove first", "remove middle", "remove last", "set first", "set middle", "set last",
                            "resize 0", "resize -1", "resize +1", "resize +5", "fill -1", "fill +1", "fill +5", "clear", "sort"};
static string showOps(const std::vector<int> &q) { string s; for (int k : q) s += string(OPN[k]) + "; "; return s; }
static void same(Direct &d, Tiny_Value a, const std::vector<Tiny_Value> &w, const std::function<string()> &what) {
    Tiny_Value n = d("ai_len", {a});
    if (n.type != TINY_VAL_INT || Tiny_ToInt(n) != (Tiny_Int)w.size()) mc::fail("length is %lld, expected %zu after %s", (long long)Tiny_ToInt(n), w.size(), what().c_str());
    for (size_t i = 0; i < w.size(); ++i) {
        Tiny_Value g = d("ai_get", {a, Tiny_NewInt((Tiny_Int)i)});
        if (g.type != w[i].type || (g.type == TINY_VAL_INT && g.i != w[i].i)) {
            string x, y; df::showT(x, g); df::showT(y, w[i]);
            mc::fail("element %zu is %s, expected %s after %s", i, x.c_str(), y.c_str(), what().c_str());
        }
    }
}
static bool eqv(Tiny_Value a, Tiny_Value b) { return a.type == b.type && (a.type != TINY_VAL_INT || a.i == b.i); }
static bool intLess(const Tiny_Value &a, const Tiny_Value &b) { return a.i < b.i; }
static void direct(int start, const std::vector<int> &q) {
    Direct &d = D();
    std::vector<Tiny_Value> w;
    for (int i = 0; i < start; ++i) w.push_back(Tiny_NewInt((i * 7 + 3) % 11 - 4));
    Tiny_Value a = d.call("ai", w.data(), start);
    int next = 100;
    auto what = [&] { return "starting with " + I(start) + " elements: " + showOps(q); };
    if (q.empty()) same(d, a, w, what);
    for (size_t k = 0; k < q.size(); ++k) {
        int op = q[k], n = (int)w.size();
        int at = op == INS0 || op == REM0 || op == SET0 ? 0 : op == INSM || op == REMM || op == SETM ? n / 2 : n - 1;
        Tiny_Value v = Tiny_NewInt(op % 2 ? next++ : -next++);
        if (n == 0 && op != PUSH && op < RES0) goto out;              // needs an element
        if (n == 0 && (op == RESM || op == FILM)) goto out;
        switch (op) {
            case PUSH: d("ai_push", {a, v}); w.push_back(v); break;
            case POP: { Tiny_Value g = d("ai_pop", {a}); if (!eqv(g, w.back())) mc::fail("pop returns another value: %s", what().c_str()); w.pop_back(); break; }
            case SHIFT: { Tiny_Value g = d("ai_shift", {a}); if (!eqv(g, w[0])) mc::fail("shift returns another value: %s", what().c_str()); w.erase(w.begin()); break; }
            case INS0: case INSM: case INSL: d("ai_insert", {a, Tiny_NewInt(at), v}); w.insert(w.begin() + at, v); break;
            case REM0: case REMM: case REML: d("ai_remove", {a, Tiny_NewInt(at)}); w.erase(w.begin() + at); break;
            case SET0: case SETM: case SETL: d(op == SETM ? "ai_set_index" : "ai_set", {a, Tiny_NewInt(at), v}); w[at] = v; break;
            case RES0: case RESM: case RESP: case RESB: { int m = op == RES0 ? 0 : op == RESM ? n - 1 : op == RESP ? n + 1 : n + 5; d("ai_resize", {a, Tiny_NewInt(m)}); w.resize(m, Tiny_Null); break; }
            case FILM: case FILP: case FILB: { int m = op == FILM ? n - 1 : op == FILP ? n + 1 : n + 5; d("ai_resize_fill", {a, Tiny_NewInt(m), v}); w.resize(m, v); break; }
            case CLEAR: d("ai_clear", {a}); w.clear(); break;
            case SORT: for (auto &x : w) if (x.type != TINY_VAL_INT) goto out; d("ai_sort", {a}); std::stable_sort(w.begin(), w.end(), intLess); break;
        }
        mc::noteTransitions(1);
        if (k + 1 == q.size()) same(d, a, w, what);                   // the shorter histories are cases of their own
    }
    mc::noteState(mc::hash(w.data(), w.size() * sizeof(Tiny_Value)));
    mc::noteTrace();
out:
    d.trim();
}
static const int STARTS[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 33};
// ---------------------------------------------------------------- values of every kind
static const char *ARR[] = {"aa", "as_", "at", "af", "ab", "ai"};
static Tiny_Value kindValue(Direct &d, int kind, int i) {
    char b[32];
    snprintf(b, 32, "v%d", i);
    if (kind == 0) kind = 1 + (i % 7 + 7) % 7;
    switch (kind) {
        case 1: return Tiny_NewStringCopy(&d.t, b, strlen(b));
        case 2: { return d.script("mks", {Tiny_NewInt(i)}); }
        case 3: return Tiny_NewFloat(i + 0.5);
        case 4: return Tiny_NewBool(i & 1);
        case 5: return Tiny_NewInt(((Tiny_Int)i << 33) + i);
        case 6: return Tiny_NewLightNative((void *)(intptr_t)(i + 1000));
        default: return Tiny_Null;
    }
}
static void kinds(int kind, const std::vector<int> &q, int start) {
    Direct &d = D();
    string A = ARR[kind];
    auto fn = [&](const char *x) { return A + x; };
    std::vector<Tiny_Value> w;
    int next = 1;
    std::vector<string> text;
    auto fresh = [&]() { Tiny_Value v = kindValue(d, kind, next++); string s; df::showT(s, v); text.push_back(s); return v; };
    std::vector<string> m;
    for (int i = 0; i < start; ++i) { w.push_back(fresh()); m.push_back(text.back()); }
    Tiny_Value a = d.call(A.c_str(), w.data(), start);
    auto show = [&](Tiny_Value v) { string s; df::showT(s, v); return s; };
    for (int op : q) {
        int n = (int)m.size();
        if (n == 0 && op != PUSH && op < RES0) return;
        if (n == 0 && (op == RESM || op == FILM)) return;
        if (op == SORT) continue;
        int at = op == INS0 || op == REM0 || op == SET0 ? 0 : op == INSM || op == REMM || op == SETM ? n / 2 : n - 1;
        Tiny_Value v = fresh();
        string vs = text.back();
        switch (op) {
            case PUSH: d(fn("_push").c_str(), {a, v}); m.push_back(vs); break;
            case POP: { string g = show(d(fn("_pop").c_str(), {a})); if (g != m.back()) mc::fail("pop returns %s instead of %s: %s", g.c_str(), m.back().c_str(), showOps(q).c_str()); m.pop_back(); break; }
            case SHIFT: { string g = show(d(fn("_shift").c_str(), {a})); if (g != m[0]) mc::fail("shift returns %s instead of %s: %s", g.c_str(), m[0].c_str(), showOps(q).c_str()); m.erase(m.begin()); break; }
            case INS0: case INSM: case INSL: d(fn("_insert").c_str(), {a, Tiny_NewInt(at), v}); m.insert(m.begin() + at, vs); break;
            case REM0: case REMM: case REML: d(fn("_remove").c_str(), {a, Tiny_NewInt(at)}); m.erase(m.begin() + at); break;
            case SET0: case SETM: case SETL: d(fn("_set").c_str(), {a, Tiny_NewInt(at), v}); m[at] = vs; break;
            case RES0: case RESM: case RESP: case RESB: { int k = op == RES0 ? 0 : op == RESM ? n - 1 : op == RESP ? n + 1 : n + 5; d(fn("_resize").c_str(), {a, Tiny_NewInt(k)}); m.resize(k, "N"); break; }
            case FILM: case FILP: case FILB: { int k = op == FILM ? n - 1 : op == FILP ? n + 1 : n + 5; d(fn("_resize_fill").c_str(), {a, Tiny_NewInt(k), v}); m.resize(k, vs); break; }
            case CLEAR: d(fn("_clear").c_str(), {a}); m.clear(); break;
        }
        mc::noteTransitions(1);
    }
    Tiny_Value n = d(fn("_len").c_str(), {a});
    if (Tiny_ToInt(n) != (Tiny_Int)m.size()) mc::fail("length is %lld, expected %zu after %s (%s)", (long long)Tiny_ToInt(n), m.size(), showOps(q).c_str(), ARR[kind]);
    for (size_t i = 0; i < m.size(); ++i) {
        string g = show(d(fn(i & 1 ? "_get" : "_get_index").c_str(), {a, Tiny_NewInt((Tiny_Int)i)}));
        if (g != m[i]) mc::fail("element %zu of %s is %s, expected %s after %s", i, ARR[kind], g.c_str(), m[i].c_str(), showOps(q).c_str());
    }
    mc::noteTrace();
    d.trim();
}
// ---------------------------------------------------------------- programs
static const string DECL =
    "use array(\"any\") as array_any use array(\"int\") as ai use array(\"str\") as as use array(\"float\") as af\n"
    "struct N { v: int a: ai }\n"
    "func len(a: ai): int { return ai_len(a) }\n"
    "func add(a: ai, v: int): ai { ai_push(a, v) return a }\n";
static string DECL2() { string s = DECL; return sub(s, "\"str\") as as", "\"str\") as sa"); }
static const string VARS = "a := ai() b := ai(3, 1, 2) s := sa(hs(\"x\")) x := array_any() n := new N{0, b} c := 0\n";
static const std::vector<string> OPS = {
    "ai_push(a, c) c = c + 1", "add(b, c) c = c + 3", "b = a", "n.a = a", "ai_push(n.a, 0 - c) c = c + 1", "if len(a) > 0 { out(ai_pop(a)) }", "if len(b) > 0 { out(ai_shift(b)) }", "if b->len() > 1 { b[1] = b[0] + 10 }",
    "if len(a) > 0 { a[len(a) - 1] += 5 out(a[0]) }", "ai_sort(b)", "ai_clear(a)", "ai_resize_fill(a, len(a) + 2, c)", "ai_resize_fill(b, 2, 9)", "if len(n.a) > 0 { ai_remove(n.a, len(n.a) / 2) }", "if len(n.a) > 0 { ai_insert(n.a, 0, c) }",
    "sa_push(s, hs(\"h\", c))", "s[0] = strcat(s[0], \"y\")", "array_any_push(x, s[0])", "array_any_push(x, cast(a, any))", "x = array_any(c, 1.5, hs(\"m\"), true, null)", "for i := 0; i < len(b); i += 1 { b[i] += i } out(b == a)", "a = ai(b[0 * len(b)] , 7)",
};
static df::Machine M[4];
static void machine(int which, const std::vector<int> &q) {
    df::Machine &m = M[which];
    if (!m.text) {
        m.opt = df::stdOpt();
        m.opt.checkGlobals = false;
        m.opt.gc = which >= 2 ? 0 : -1;
        bool local = which & 1;
        m.text = [local] { return df::machine(DECL2(), VARS, OPS, "dump(a, b, s, n)", "dump(a, b, s, x, n)", local); };
    }
    m.run(q);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static int len = 5;
        for (int st : STARTS) {
            int L = st == 0 || (mc::thorough && (st == 1 || st == 7 || st == 16)) ? len : st == 1 || mc::thorough ? len - 1 : len - 2;
            mc::family("histories-from-" + I(st), mc::seqCount(NOP, L), [st](uint64_t i) { direct(st, mc::seqAt(NOP, i)); },
                       [st](uint64_t i) { return "array of " + I(st) + " ints; " + showOps(mc::seqAt(NOP, i)); });
        }
        // deeper, over the operations which move elements
        mc::family("deep", 3 * mc::power(8, mc::thorough ? 8 : 6), [](uint64_t i) {
            static const int A[] = {PUSH, POP, SHIFT, INS0, INSM, REMM, RESB, FILP};
            int st = (int)(i % 3) * 7; i /= 3;
            std::vector<int> q;
            for (int k = 0; k < (mc::thorough ? 8 : 6); ++k, i /= 8) q.push_back(A[i % 8]);
            direct(st, q);
        });
        mc::family("kinds", 6 * mc::seqCount(NOP, mc::thorough ? 4 : 3), [](uint64_t i) { for (int st : {0, 3, 9}) kinds((int)(i % 6), mc::seqAt(NOP, i / 6), st); },
                   [](uint64_t i) { return string(ARR[i % 6]) + ": " + showOps(mc::seqAt(NOP, i / 6)); });
        // sorting: every sequence over extreme values
        mc::family("sort", mc::seqCount(8, mc::thorough ? 7 : 6), [](uint64_t i) {
            static const Tiny_Int V[] = {INT64_MIN, -5000000000ll, -1, 0, 1, 4294967296ll, 5000000000ll, INT64_MAX};
            Direct &d = D();
            std::vector<Tiny_Value> w;
            for (int k : mc::seqAt(8, i)) w.push_back(Tiny_NewInt(V[k]));
            Tiny_Value a = d.call("ai", w.data(), (int)w.size());
            d("ai_sort", {a});
            std::sort(w.begin(), w.end(), intLess);
            same(d, a, w, [] { return string("sorting"); });
            mc::noteTrace();
            d.trim();
        });
        mc::family("sort-patterns", 300 * 6, [](uint64_t i) {
            Direct &d = D();
            int n = (int)(i % 300), p = (int)(i / 300);
            std::vector<Tiny_Value> w;
            for (int k = 0; k < n; ++k) w.push_back(Tiny_NewInt(p == 0 ? k : p == 1 ? n - k : p == 2 ? k * 7919 % 1009 : p == 3 ? k % 3 : p == 4 ? (k & 1 ? k : -k) * 1000000000000ll : 5));
            Tiny_Value a = d.call("ai", w.data(), (int)w.size());
            d("ai_sort", {a});
            std::sort(w.begin(), w.end(), intLess);
            same(d, a, w, [=] { return "sorting pattern " + I(p) + " of " + I(n); });
            mc::noteTrace();
        });
        // every size reached in each way, then everything checked
        mc::family("sizes", (mc::thorough ? 2000 : 520) * 8, [](uint64_t i) {
            Direct &d = D();
            int n = (int)(i / 8), how = (int)(i % 8);
            std::vector<Tiny_Value> w;
            Tiny_Value a;
            auto v = [](int k) { return Tiny_NewInt(k * 3 - 50); };
            if (how == 0) { for (int k = 0; k < n; ++k) w.push_back(v(k)); a = d.call("ai", w.data(), n); }
            else a = d.call("ai", nullptr, 0);
            for (int k = 0; k < n && how == 1; ++k) { d("ai_push", {a, v(k)}); w.push_back(v(k)); }
            if (how == 2) { d("ai_resize", {a, Tiny_NewInt(n)}); w.resize(n, Tiny_Null); }
            if (how == 3) { d("ai_resize_fill", {a, Tiny_NewInt(n), v(n)}); w.resize(n, v(n)); }
            for (int k = 0; k < n && how == 4; ++k) { if (k) { d("ai_insert", {a, Tiny_NewInt(k / 2), v(k)}); w.insert(w.begin() + k / 2, v(k)); } else { d("ai_push", {a, v(k)}); w.push_back(v(k)); } }
            if (how == 5) { for (int k = 0; k < 2 * n; ++k) { d("ai_push", {a, v(k)}); w.push_back(v(k)); } for (int k = 0; k < n; ++k) { d("ai_remove", {a, Tiny_NewInt(k % 2 ? 0 : (Tiny_Int)w.size() - 1)}); w.erase(k % 2 ? w.begin() : w.end() - 1); } }
            if (how == 6) { for (int k = 0; k < n; ++k) { d("ai_push", {a, v(k)}); w.push_back(v(k)); } for (int k = 0; k < n / 2; ++k) { if (!eqv(d("ai_shift", {a}), w[0])) mc::fail("shift of %d", n); w.erase(w.begin()); } d("ai_resize_fill", {a, Tiny_NewInt(n), v(1)}); w.resize(n, v(1)); }
            if (how == 7) { d("ai_resize_fill", {a, Tiny_NewInt(n + 3), v(2)}); d("ai_clear", {a}); for (int k = 0; k < n; ++k) { d("ai_push", {a, v(k)}); w.push_back(v(k)); } for (int k = 0; k < n; ++k) { d("ai_set", {a, Tiny_NewInt(k), v(n - k)}); w[k] = v(n - k); } }
            same(d, a, w, [=] { return "size " + I(n) + " reached in way " + I(how); });
            while (!w.empty()) {
                if (!eqv(d("ai_pop", {a}), w.back())) mc::fail("pop at length %zu of %d in way %d", w.size(), n, how);
                w.pop_back();
            }
            same(d, a, w, [=] { return string("popping everything"); });
            mc::noteTrace();
        });
        // one or two operations on arrays with more elements than small integers count
        static const std::vector<int> BIG = {127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072};
        mc::family("large", BIG.size() * (1 + NOP), [](uint64_t i) {
            auto q = mc::seqAt(NOP, i / BIG.size());
            direct(BIG[i % BIG.size()], q);
        }, [](uint64_t i) { return I(BIG[i % BIG.size()]) + " elements"; });
        mc::family("large-pairs", 4 * NOP * NOP, [](uint64_t i) {
            static const int N[] = {127, 255, 256, 65536};
            if (!mc::thorough && i % 4 == 3 && i / 4 % NOP % 3 != 1) return;
            direct(N[i % 4], {(int)(i / 4 % NOP), (int)(i / 4 / NOP)});
        });
        mc::family("arguments", 3 * 60, [](uint64_t i) {
            int n = (int)(i / 3);
            string a;
            for (int k = 0; k < n; ++k) a += (k ? ", " : "") + (i % 3 == 0 ? I(k * 5) : i % 3 == 1 ? "hs(\"e\", " + I(k) + ")" : k % 2 ? string("null") : "ti(" + I(k) + ")");
            df::Opt o = df::stdOpt(); o.checkGlobals = false; o.mustAccept = true; o.gc = n % 2 ? 0 : -1;
            df::compare(DECL2() + "x := array_any(" + a + ") dump(x) out(array_any_len(x)) func f() { y := array_any(" + a + ") dump(y) } f()", o);
        });
        mc::family("programs", 4 * mc::seqCount(OPS.size(), mc::thorough ? 3 : 2), [](uint64_t i) { machine((int)(i % 4), mc::seqAt(OPS.size(), i / 4)); }, [](uint64_t i) { return df::showSeq(mc::seqAt(OPS.size(), i / 4), OPS); });
        mc::family("programs-3", mc::thorough ? 0 : mc::power(OPS.size(), 3), [](uint64_t i) { machine((int)(i % 2), {(int)(i % OPS.size()), (int)(i / OPS.size() % OPS.size()), (int)(i / OPS.size() / OPS.size())}); });
    });
}
