// P30: the 64-bit integer type.
#include "direct.hpp"
#include "gen.hpp"
using namespace gen;
typedef __int128 W;
static const int64_t MAX = INT64_MAX, MIN = INT64_MIN;
static std::vector<int64_t> values(int dense) {
    std::vector<int64_t> v;
    for (int64_t x : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2, (int64_t)-2, (int64_t)3, (int64_t)10, (int64_t)-10, MAX, MIN, MAX - 1, MIN + 1, MAX / 2, MIN / 2, MAX / 2 + 1, (int64_t)INT32_MAX, (int64_t)INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, (int64_t)3037000499, (int64_t)3037000500, (int64_t)-3037000500, (int64_t)1000000007, (int64_t)4611686018427387904, (int64_t)-4611686018427387904, (int64_t)123456789012345}) v.push_back(x);
    if (dense) for (int k = 0; k < 63; ++k) for (int e = -1; e <= 1; ++e) { v.push_back(((int64_t)1 << k) + e); v.push_back(-((int64_t)1 << k) + e); }
    return v;
}
static const std::vector<int64_t> V = values(0), VV = values(1);
static bool fits(W w) { return w >= MIN && w <= MAX; }
static bool sum(const std::vector<int64_t> &a, int64_t *r) { W w = 0; for (auto x : a) w += x; *r = (int64_t)w; return fits(w); }
static bool product(const std::vector<int64_t> &a, int64_t *r) {
    W w = 1;
    for (auto x : a) if (x == 0) { *r = 0; return true; }
    for (auto x : a) { w *= x; if (w > -(W)MIN || w < MIN) return false; }
    *r = (int64_t)w;
    return fits(w);
}
static Direct &D() { static Direct *d = new Direct("", [](Tiny_State *s) { Tiny_BindI64(s); }); return *d; }
static string text(Direct &d, Tiny_Value v) { Tiny_Value s = d("i64_to_string", {v}); return string(Tiny_ToString(s), Tiny_StringLen(s)); }
static void check(const std::vector<int64_t> &a, bool mul) {
    int64_t want;
    if (!(mul ? product(a, &want) : sum(a, &want))) { mc::noteSkip(); return; }
    Direct &d = D();
    std::vector<Tiny_Value> v;
    for (auto x : a) v.push_back(d("int_to_i64", {Tiny_NewInt(x)}));
    std::vector<Tiny_Value> w = v;
    Tiny_Value r = d.call(mul ? "i64_mul_many" : "i64_add_many", v.data(), (int)v.size());
    auto what = [&] { string s; for (auto x : a) s += (s.empty() ? "" : mul ? " * " : " + ") + I(x); return s; };
    string g = text(d, r);
    if (g != I(want)) mc::fail("%s is %s instead of %lld", what().c_str(), g.c_str(), (long long)want);
    if (text(d, r) != g) mc::fail("turning %s into text changes it", g.c_str());
    for (size_t k = 0; k < v.size(); ++k) if (text(d, w[k]) != I(a[k]) || text(d, v[k]) != I(a[k])) mc::fail("operand %zu of %s has become %s", k, what().c_str(), text(d, v[k]).c_str());
    mc::noteState(mc::hash(a.data(), a.size() * 8) * 2 + mul);
    mc::noteTransitions(a.size() + 2);
    mc::noteRun();
    d.trim();
}
// ---------------------------------------------------------------- in programs
static df::Opt opt;
static void bindRef(df::RefEnv &R) {
    df::RefEnv *P = &R;
    auto &S = R.S;
    S.registerType("i64");
    auto num = [](const ref::Val &v) { if (v.t != ref::Val::Native || v.o->id != -9) throw ref::Skip{"not a number"}; return v.o->fields[0].i; };
    auto mk = [P](int64_t i) { ref::Val v = df::refNative(*P, {ref::Val::mkInt(i)}, -9); return v; };
    S.bind("int_to_i64(int): i64", [mk](std::vector<ref::Val> &a) { return mk(a[0].i); });
    auto many = [=](bool mul) { return [=](std::vector<ref::Val> &a) { std::vector<int64_t> x; for (auto &v : a) x.push_back(num(v)); int64_t r; if (!(mul ? product(x, &r) : sum(x, &r))) throw ref::Skip{"not representable"}; return mk(r); }; };
    S.bind("i64_add_many(i64, ...): i64", many(false));
    S.bind("i64_mul_many(i64, ...): i64", many(true));
    S.bind("i64_to_string(i64): str", [=](std::vector<ref::Val> &a) { return P->str(std::to_string((long long)num(a[0]))); });
}
static const std::vector<string> OPS = {"a = int_to_i64(n)", "b = int_to_i64(9223372036854775807)", "c = int_to_i64(-1)", "a = i64_add_many(a, b)", "b = i64_mul_many(b, c)", "c = i64_add_many(a, b, c)", "a = i64_mul_many(a, a, c)", "b = a", "h.v = b", "a = h.v", "i64_add_many(a, int_to_i64(5))->drop()", "l[0] = a b = l[0]", "d[\"k\"] = c c = cast(d[\"k\"], i64)", "a = a->i64_add_many(int_to_i64(1000), c)", "b = twice(twice(c))", "n = n * 3 + 1", "os(i64_to_string(i64_mul_many(a, b)))", "x = cast(a, any) b = cast(x, i64)", "a = i64_add_many(a)", "c = i64_mul_many(b)"};
static df::Machine mach[3];
static bool machine(const std::vector<int> &q, int mode) {
    df::Machine &m = mach[mode];
    if (!m.text) {
        m.opt = opt;
        if (mode == 2) m.opt.gc = 0;
        m.text = [mode] {
            string decl = "struct H { v: i64 } use array(\"i64\") as big func twice(v: i64): i64 { return i64_add_many(v, v) } func drop(v: i64) { os(i64_to_string(v)) }\n";
            string show = "os(i64_to_string(a)) os(i64_to_string(b)) os(i64_to_string(c)) os(i64_to_string(h.v))";
            return df::machine(decl, "n := 7 a := int_to_i64(1) b := int_to_i64(-2) c := int_to_i64(4294967296) h := new H{int_to_i64(9)} l := big(a) d := dict() x := cast(b, any)", OPS, show, show, mode == 1);
        };
    }
    return m.run(q);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto im = opt.binder; auto re = opt.refBinder;
        opt.binder = [im](Tiny_State *s) { im(s); Tiny_BindI64(s); };
        opt.refBinder = [re](df::RefEnv &R) { re(R); bindRef(R); };
        opt.checkGlobals = false;
        uint64_t n = V.size(), nn = VV.size();
        bool th = mc::thorough;
        mc::family("single", nn * 2, [](uint64_t i) { check({VV[i / 2]}, i % 2); });
        mc::family("pairs", nn * nn * 2, [nn](uint64_t i) { check({VV[i / 2 % nn], VV[i / 2 / nn]}, i % 2); });
        mc::family("triples", n * n * n * 2, [n](uint64_t i) { uint64_t k = i / 2; check({V[k % n], V[k / n % n], V[k / n / n]}, i % 2); });
        if (th) mc::family("quadruples", n * n * n * n * 2, [n](uint64_t i) { uint64_t k = i / 2; check({V[k % n], V[k / n % n], V[k / n / n % n], V[k / n / n / n]}, i % 2); });
        mc::family("small", mc::power(9, 6) * 2, [](uint64_t i) { std::vector<int64_t> a; uint64_t k = i / 2; for (int j = 0; j < 6; ++j) { a.push_back((int64_t)(k % 9) - 4); k /= 9; } if (!mc::thorough && k % 3) return; check(a, i % 2); });
        // large values which come again
        mc::family("repeated", mc::power(4, 7) * 2, [](uint64_t i) {
            static const int64_t R[] = {((int64_t)1 << 32) + 1, ((int64_t)1 << 55) + 3, -((int64_t)1 << 40) - 5, 1};
            std::vector<int64_t> a;
            uint64_t k = i / 2;
            for (int j = 0; j < 7; ++j) { a.push_back(R[k % 4]); k /= 4; }
            check(a, i % 2);
        });
        mc::family("counts", 250 * 6 * 2, [](uint64_t i) {
            uint64_t c = i / 2 % 250 + 1, kind = i / 500;
            std::vector<int64_t> a;
            for (uint64_t k = 0; k < c; ++k) a.push_back(kind == 0 ? (int64_t)k + 1 : kind == 1 ? (k % 2 ? -1 : 1) : kind == 2 ? (k % 2 ? MAX : MIN) : kind == 3 ? (k == c - 1 ? MAX : k % 3 == 2 ? -1 : k % 3 ? 1 : i % 2 ? 1 : 0) : kind == 4 ? (k % 2 ? -(int64_t)k * 1000000007 : (int64_t)k * 999999937) : (k == c / 2 ? 0 : MAX - (int64_t)k));
            check(a, i % 2);
        });
        mc::family("range", 1 << 16, [](uint64_t i) { for (int64_t base : {(int64_t)-32768, (int64_t)INT32_MAX - 32768, (int64_t)INT32_MIN - 32768, MAX - 65535, MIN}) check({base + (int64_t)i}, i % 2); });
        int k = th ? 4 : 3;
        mc::family("programs", mc::power(OPS.size(), k) * 3, [k](uint64_t i) {
            int mode = (int)(i / mc::power(OPS.size(), k));
            std::vector<int> q;
            for (int j = 0; j < k; ++j) { q.push_back((int)(i % OPS.size())); i /= OPS.size(); }
            machine(q, mode);
        });
        mc::family("arguments", 26 * 3, [](uint64_t i) {
            string s = "a := int_to_i64(1) n := 0 struct S { v: i64 }\n";
            static const char *A[] = {"int_to_i64(a)", "int_to_i64(1.5)", "int_to_i64()", "int_to_i64(1, 2)", "int_to_i64(\"1\")", "i64_add_many()", "i64_add_many(1)", "i64_add_many(a, a, a, a)", "i64_mul_many(a)", "i64_mul_many(2)", "i64_to_string(5)", "i64_to_string(a)", "i64_to_string()", "i64_to_string(a, a)", "n = a", "a = n", "a = 5", "n = i64_add_many(a, a)", "os(i64_to_string(a))", "oi(a)", "s: str = i64_to_string(a)", "s: i64 = i64_mul_many(a, a)", "a = null", "a + a", "t := new S{a}", "t := new S{1}"};
            df::Duo X(opt);
            if (X.compile(s + (i / 26 == 1 ? "func f() { " : i / 26 == 2 ? "if true { " : "") + A[i % 26] + (i / 26 ? " }" : ""))) X.run();
        });
    });
}
