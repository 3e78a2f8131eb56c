// P39: conversions between integers and floats, and rounding.
#include "direct.hpp"
#include "gen.hpp"
#include <cmath>
using namespace gen;
typedef __int128 W;
static double mk(int sign, int exp, uint64_t man) {
    uint64_t b = (uint64_t)sign << 63 | (uint64_t)exp << 52 | (man & ((1ull << 52) - 1));
    double d; memcpy(&d, &b, 8); return d;
}
static string show(double f) { char b[80]; snprintf(b, sizeof b, "%a (%.20g)", f, f); return b; }
// The integral part of a float and whether something was dropped, from its bits.
static bool parts(double f, W *whole, bool *rest) {
    uint64_t b; memcpy(&b, &f, 8);
    int e = (int)(b >> 52 & 2047);
    uint64_t m = b & ((1ull << 52) - 1);
    *rest = false; *whole = 0;
    if (e == 0) { *rest = m != 0; return true; }
    m |= 1ull << 52;
    int sh = e - 1075;                     // value = m * 2^sh
    if (sh > 60) return false;
    if (sh >= 0) *whole = (W)m << sh;
    else if (sh > -53) { *whole = m >> -sh; *rest = (m & ((1ull << -sh) - 1)) != 0; }
    else *rest = true;
    if (b >> 63) *whole = -*whole;
    return true;
}
// The float nearest to an integer, ties to even, as bits.
static double nearest(int64_t i) {
    uint64_t n = i < 0 ? 0 - (uint64_t)i : (uint64_t)i;
    if (!n) return 0;
    int top = 63 - __builtin_clzll(n);
    uint64_t m = n;
    if (top > 52) {
        int sh = top - 52;
        uint64_t low = n & ((1ull << sh) - 1), half = 1ull << (sh - 1);
        m = n >> sh;
        if (low > half || (low == half && (m & 1))) ++m;
        if (m == 1ull << 53) { m >>= 1; ++top; }
    } else m <<= 52 - top;
    return mk(i < 0, top + 1023, m);
}
static bool sameBits(double a, double b) { return !memcmp(&a, &b, 8); }
static const char *DECL =
    "struct F { f: float i: int }\n"
    "func fi(x: float): int { return int(x) }\nfunc fif(x: float): float { return float(int(x)) }\nfunc fl(x: float): float { return floor(x) }\nfunc ce(x: float): float { y := ceil(x) return y }\n"
    "func fil(x: float): int { return int(floor(x)) }\nfunc ic(x: float): int { r := new F{ceil(x), 0} r.i = int(r.f) return r.i }\nfunc m(x: float): int { return x->int() }\n"
    "func inf(i: int): float { return float(i) }\nfunc pr(i: int): float { return i + 0.0 }\nfunc pl(i: int): float { return 1.0 * i }\nfunc mi(i: int): float { return i->float() }\n"
    "func lt(i: int, x: float): bool { return i < x }\nfunc gt(i: int, x: float): bool { return x > i }\nfunc back(i: int): int { return int(float(i)) }\n";
static Direct &D() { static Direct *d = new Direct(DECL); return *d; }
static void isInt(Tiny_Value v, W w, const char *what, double f) {
    if (v.type != TINY_VAL_INT || Tiny_ToInt(v) != (Tiny_Int)w) mc::fail("%s of %s is %s instead of %lld", what, show(f).c_str(), shown(v).c_str(), (long long)w);
    mc::noteTransitions(1);
}
static void isFloat(Tiny_Value v, double w, const char *what, const string &of, bool zeros = false) {
    if (v.type != TINY_VAL_FLOAT || !(sameBits(Tiny_ToFloat(v), w) || (zeros && Tiny_ToFloat(v) == 0 && w == 0))) mc::fail("%s of %s is %s instead of %s", what, of.c_str(), v.type == TINY_VAL_FLOAT ? show(Tiny_ToFloat(v)).c_str() : shown(v).c_str(), show(w).c_str());
    mc::noteTransitions(1);
}
static void oneFloat(double f) {
    Direct &d = D();
    Tiny_Value v = Tiny_NewFloat(f);
    mc::noteState(mc::hash(&f, 8));
    if (!sameBits(Tiny_ToFloat(v), f)) mc::fail("the value of %s has changed", show(f).c_str());
    if (Tiny_ToNumber(v) != f) mc::fail("the number of %s is %s", show(f).c_str(), show(Tiny_ToNumber(v)).c_str());
    W w; bool rest;
    bool small = parts(f, &w, &rest);
    if (!small) { rest = false; }
    // floor and ceil of anything
    double lo = f, hi = f;
    if (small && rest) {
        W a = f < 0 ? w - 1 : w, b = f < 0 ? w : w + 1;    // |w| < 2^53 as there is a fraction
        lo = a ? nearest((int64_t)a) : 0.0; hi = b ? nearest((int64_t)b) : -0.0;
        if (f > 0 && b) hi = nearest((int64_t)b);
    }
    string n = show(f);
    isFloat(d("floor", {v}), lo, "floor", n, true); isFloat(d.script("fl", {v}), lo, "floor in a script", n, true);
    isFloat(d("ceil", {v}), hi, "ceil", n, true); isFloat(d.script("ce", {v}), hi, "ceil in a script", n, true);
    if (!small || w > INT64_MAX || w < INT64_MIN) { mc::noteSkip(); return; }
    isInt(d("int", {v}), w, "int", f); isInt(d.script("fi", {v}), w, "int in a script", f); isInt(d.script("m", {v}), w, "int as a method", f);
    isFloat(d.script("fif", {v}), w ? nearest((int64_t)w) : 0.0, "float(int)", n);
    if (lo >= -9223372036854775808.0) { W x = rest && f < 0 ? w - 1 : w; isInt(d.script("fil", {v}), x, "int(floor)", f); }
    { W x = rest && f > 0 ? w + 1 : w; isInt(d.script("ic", {v}), x, "int(ceil)", f); }
    mc::noteRun();
}
static void oneInt(int64_t i) {
    Direct &d = D();
    Tiny_Value v = Tiny_NewInt(i);
    mc::noteState(mc::hash(&i, 8) ^ 77);
    double w = nearest(i);
    string n = I((long)i);
    if (Tiny_ToNumber(v) != w) mc::fail("the number of %s is %s", n.c_str(), show(Tiny_ToNumber(v)).c_str());
    isFloat(d("float", {v}), w, "float", n); isFloat(d.script("inf", {v}), w, "float in a script", n); isFloat(d.script("mi", {v}), w, "float as a method", n);
    isFloat(d.script("pr", {v}), w, "adding 0.0", n); isFloat(d.script("pl", {v}), w, "multiplying with 1.0", n);
    for (double x : {w, std::nextafter(w, INFINITY), std::nextafter(w, -INFINITY)}) {
        Tiny_Value r = d.script("lt", {v, Tiny_NewFloat(x)}), q = d.script("gt", {v, Tiny_NewFloat(x)});
        if (r.type != TINY_VAL_BOOL || Tiny_ToBool(r) != (w < x) || q.type != TINY_VAL_BOOL || Tiny_ToBool(q) != (x > w)) mc::fail("comparing %s and %s gives %s and %s", n.c_str(), show(x).c_str(), shown(r).c_str(), shown(q).c_str());
        mc::noteTransitions(2);
    }
    W back; bool rest;
    parts(w, &back, &rest);
    if (back <= INT64_MAX) {
        Tiny_Value r = d.script("back", {v});
        if (r.type != TINY_VAL_INT || Tiny_ToInt(r) != (Tiny_Int)back) mc::fail("int(float(%s)) is %s", n.c_str(), shown(r).c_str());
    }
    mc::noteRun();
}
// ---- chains of conversions in programs
static const char *FF[] = {"floor(~)", "ceil(~)", "(-~)", "(~ + 0.5)", "(~ * 2)", "(~ - 1)", "idf(~)", "new F{~}.f", "float(int(~))", "(if 3.25 == ~ || (1.25 < ~) 2.5 else ~)"};
static const char *STARTF[] = {"0.0", "0.5", "1.5", "2.25", "-0.5", "-1.5", "tf(2.5)", "tf(-2.5)", "float(3)", "float(ti(-7))", "K", "1000000.75", "float(2 + 3 * 4)", "(1 + 0.25)"};
static const char *OUT[] = {"out(~)", "out(int(~))", "oi(int(~) + 1)", "g = int(~) out(g, ~)", "f = ~ out(f, int(f), floor(f), ceil(f))", "if int(~) == 2 { out(1) } else { out(2) }", "out(~->int(), ~->floor()->int())", "for i := int(~); i < 4; i += 1 { out(i, float(i)) }"};
static const int NF = 10, NST = 14, NO = 8;
static string chainText(uint64_t i) {
    mc::Digits d(i);
    int start = (int)d(NST), o = (int)d(NO), where = (int)d(2);
    string e = STARTF[start];
    for (int x : mc::seqAt(NF, d.v)) e = sub(FF[x], "~", e);
    string b = sub(OUT[o], "~", e);
    return "struct F { f: float }\nfunc idf(x: float): float { return x }\nK :: 7.75\n" + string(where ? "func run() { g := 0 f := 0.0 " + b + " }\nrun()\n" : "g := 0 f := 0.0 " + b + "\n");
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static df::Opt opt = df::stdOpt();
        opt.mustAccept = true;
        mc::family("bits", 2047 * 2, [](uint64_t i) {       // every exponent
            int e = (int)(i % 2047), s = (int)(i / 2047);
            std::vector<uint64_t> m{0, 1, 2, 3, (1ull << 52) - 1, (1ull << 52) - 2, 0x5555555555555ull, 0xaaaaaaaaaaaaaull};
            bool dense = mc::thorough || (e > 1010 && e < 1095);
            for (int k = 0; k < 52; k += dense ? 1 : 13) { m.push_back(1ull << k); m.push_back(~(1ull << k)); m.push_back((1ull << k) - 1); m.push_back(~((1ull << k) - 1)); if (dense) for (int j = 0; j < k; j += mc::thorough ? 1 : 5) m.push_back(1ull << k | 1ull << j); }
            for (auto x : m) oneFloat(mk(s, e, x));
        }, [](uint64_t i) { return "floats with exponent " + I((long)(i % 2047)); });
        mc::family("infinite", 2, [](uint64_t i) { Direct &d = D(); double f = i ? -INFINITY : INFINITY; isFloat(d("floor", {Tiny_NewFloat(f)}), f, "floor", show(f)); isFloat(d.script("ce", {Tiny_NewFloat(f)}), f, "ceil", show(f)); mc::noteState(i); });
        mc::family("near-integers", mc::thorough ? 200000 : 15000, [](uint64_t i) {
            for (int s = 0; s < 2; ++s) for (double b : {(double)i, (double)i + 0.5, (double)i + 1.0 / 3, (double)i * 65536 + 0.25}) {
                double f = s ? -b : b;
                for (double x : {f, std::nextafter(f, INFINITY), std::nextafter(f, -INFINITY)}) oneFloat(x);
            }
        }, [](uint64_t i) { return "floats near " + I((long)i); });
        mc::family("ints", 64 * 64, [](uint64_t i) {
            int k = (int)(i % 64), j = (int)(i / 64);
            if (j > k) return;
            for (int sh = 0; sh < 4; ++sh) for (int64_t e = -3; e <= 3; ++e) {
                // two leading bits, and a pattern around half of the last place
                uint64_t n = (k == 63 ? 0 : 1ull << k) | (j == 63 ? 0 : 1ull << j);
                if (k > 54) n += (uint64_t)sh << (k - 54);
                n += (uint64_t)e;
                if ((int64_t)n < 0) n &= INT64_MAX;
                oneInt((int64_t)n); oneInt(-(int64_t)n); oneInt(~(int64_t)n);
            }
        }, [](uint64_t i) { return "integers around 2^" + I((long)(i % 64)) + " + 2^" + I((long)(i / 64)); });
        mc::family("small-ints", mc::thorough ? 2000 : 200, [](uint64_t i) { for (int k = 0; k < 100; ++k) { oneInt((long)i * 100 + k); oneInt(-(long)i * 100 - k); } });
        mc::family("programs", (uint64_t)NST * NO * 2 * mc::seqCount(NF, mc::thorough ? 4 : 3), [](uint64_t i) { if (!mc::thorough && i / (NST * NO * 2) >= 111 && (i / (NST * NO * 2) + i) % 5) return; df::compare(chainText(i), opt); }, chainText);
    });
}
