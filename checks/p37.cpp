// P37: functions, types and constants bound by the host.
#include "stdref.hpp"
#include "gen.hpp"
#include <utility>
using namespace gen;
using ref::Val;
static const char *TY[] = {"bool", "int", "float", "str", "any", "nat", "S", "int?", "S?", "str?", "nat?"};
static const int NT = 11;
static const char *VAL[] = {"true", "3", "2.5", "\"s\"", "ta(9)", "mknat()", "new S{1}", "ni()", "ns()", "nst()", "nn()", "null", "f0()"};
static const int NV = 13;
static const char *PRE = "struct S { v: int }\nfunc ni(): int? { }\nfunc ns(): S? { if tb(true) { return new S{4} } }\nfunc nst(): str? { if tb(true) { return hs(\"n\") } }\nfunc nn(): nat? { }\n";
// A bound function logs its number and what it was given and returns a value of the kind its type says.
static int retKind[64];
static Tiny_Value give(Tiny_StateThread *t, int r, const Tiny_Value *a, int c) {
    switch (r) {
        case 0: return Tiny_NewBool(true);
        case 1: return Tiny_NewInt(42000000000);
        case 2: return Tiny_NewFloat(0.125);
        case 3: return Tiny_NewStringCopy(t, "ret", 3);
        case 4: return Tiny_NewBool(false);
        case 7: return Tiny_NewInt(-1);
        case 9: return Tiny_NewConstString("opt");
        default: break;
    }
    for (int i = 0; i < c; ++i) if (a[i].type == (r == 5 || r == 10 ? TINY_VAL_NATIVE : TINY_VAL_STRUCT)) return a[i];
    return Tiny_Null;
}
static Val giveRef(df::RefEnv &R, int r, std::vector<Val> &a) {
    switch (r) {
        case 0: return Val::mkBool(true);
        case 1: return Val::mkInt(42000000000);
        case 2: return Val::mkFloat(0.125);
        case 3: return R.str("ret");
        case 4: return Val::mkBool(false);
        case 7: return Val::mkInt(-1);
        case 9: return R.str("opt");
        default: break;
    }
    for (auto &v : a) if (v.t == (r == 5 || r == 10 ? Val::Native : Val::Struct)) return v;
    return Val{};
}
template <int N> static Tiny_Value bound(Tiny_StateThread *t, const Tiny_Value *a, int c) { df::logCall(t, ("F" + I(N)).c_str(), a, c); return give(t, retKind[N], a, c); }
template <size_t... K> static std::vector<Tiny_ForeignFunction> table(std::index_sequence<K...>) { return {bound<K>...}; }
static const std::vector<Tiny_ForeignFunction> FN = table(std::make_index_sequence<64>());
static void bindBoth(df::Duo &D, const string &sig, int n, int ret) {
    retKind[n] = ret;
    Tiny_BindFunction(D.I.s, sig.c_str(), FN[n]);
    df::RefEnv *P = &D.R;
    D.R.S.bind(sig, [P, n, ret](std::vector<Val> &a) { df::logRef(P->log, ("F" + I(n)).c_str(), a); return giveRef(*P, ret, a); });
}
static string layout(const string &name, const std::vector<int> &ps, bool var, int ret, int style) {
    std::vector<string> p;
    for (int t : ps) p.push_back(TY[t]);
    if (var) p.push_back("...");
    string r = ret < 0 ? "" : ret == NT ? "void" : TY[ret];
    switch (style) {
        case 0: return name + "(" + join(p, ", ") + ")" + (r.empty() ? "" : ": " + r);
        case 1: return name + "(" + join(p, ",") + ")" + (r.empty() ? "" : ":" + r);
        case 2: return "  " + name + " ( " + join(p, " , ") + " ) " + (r.empty() ? "" : " : " + r) + "  ";
        case 3: return name + "\t(\n" + join(p, ",\n\t") + "\n)" + (r.empty() ? "" : "\n:\n" + r) + "\n";
        default: return name + "(" + join(p, ", ") + (p.empty() ? "" : ",") + ") // text" + (r.empty() ? "" : "\n: " + r + " // more");
    }
}
static df::Opt opt, optGc;
// One call in one form.
static string call(const string &f, std::vector<string> a, int form, int ret) {
    string r = ret < 0 ? "any" : ret == NT ? "void" : TY[ret];
    if (form == 1 && a.size()) { string h = a[0]; a.erase(a.begin()); return h + "->" + f + "(" + join(a, ", ") + ")"; }
    string c = f + "(" + join(a, ", ") + ")";
    if (form == 2) return "x := " + c + " out(x)";
    if (form == 3) return "x: " + r + " = " + c + " out(x)";
    if (form == 4) return "func w(): " + r + " { l := 5 return " + c + " } out(w(), 1)";
    if (form == 5) return "out(1, " + c + ", " + c + ", 2)";
    return c;
}
static const int NFORM = 6;
struct Sig { std::vector<int> ps; bool var; int ret, style; };
static Sig sigAt(uint64_t i) {
    mc::Digits d(i);
    Sig s;
    s.ret = (int)d(NT + 2) - 1;
    s.var = d(2);
    for (int t : mc::seqAt(NT, d.v)) s.ps.push_back(t);
    s.style = (int)((i * 7 + s.ps.size()) % 5);
    return s;
}
static void allCalls(const Sig &s, bool late) {
    string sig = layout("f", s.ps, s.var, s.ret, s.style);
    auto one = [&](std::vector<int> vs, int form) {
        std::vector<string> a;
        for (int v : vs) a.push_back(VAL[v]);
        df::Duo D((vs.size() + form) % 4 ? opt : optGc);
        if (!late) { bindBoth(D, "f0(): S", 1, 6); bindBoth(D, sig, 0, s.ret); }
        if (!D.compile(PRE)) mc::fail("the declarations are rejected");
        if (late) { bindBoth(D, "f0(): S", 1, 6); bindBoth(D, sig, 0, s.ret); }
        if (D.compile(call("f", a, form, s.ret))) D.run();
    };
    std::vector<int> good(s.ps.begin(), s.ps.end());
    int n = (int)good.size(), k = 0;
    for (int f = 0; f < NFORM; ++f) one(good, f);
    for (int p = 0; p < n; ++p) for (int v = 0; v < NV; ++v) { auto q = good; q[p] = v; one(q, k++ % NFORM); }
    if (n) one(std::vector<int>(good.begin(), good.end() - 1), k++ % NFORM);
    for (int v = 0; v < NV; ++v) { auto q = good; q.push_back(v); one(q, k++ % NFORM); if (v % 4 == 0) { q.push_back(v + (v < NV - 1)); one(q, k++ % NFORM); } }
    for (int p = 0; p + 1 < n; ++p) { auto q = good; std::swap(q[p], q[p + 1]); one(q, k++ % NFORM); }
}
// Several functions with similar names, bound in any order, some after a compilation.
static void several(uint64_t i, int n) {
    static const char *NM[] = {"f", "ff", "fg", "F", "f1", "f_"};
    static const int P[][2] = {{-1, -1}, {1, -1}, {3, -1}, {1, 3}, {3, 1}, {4, 4}};
    mc::Digits d(i);
    int split = (int)d(n + 1), start = (int)d(6);
    df::Duo D(opt);
    bindBoth(D, "f0(): S", 63, 6);
    if (!D.compile(PRE)) return;
    string uses;
    auto use = [&](int k, const string &nm, const int *p) { std::vector<string> a; for (int j = 0; j < 2; ++j) if (p[j] >= 0) a.push_back(p[j] == 4 ? I(k) : VAL[p[j]]); uses += "out(" + nm + "(" + join(a, ", ") + ")) "; };
    for (int k = 0; k < n; ++k) {
        if (k == split) { if (!D.compile(uses + "func early" + I(k) + "() { " + uses + " } early" + I(k) + "() ")) return; }
        const int *p = P[d(6)];
        std::vector<int> ps;
        for (int j = 0; j < 2; ++j) if (p[j] >= 0) ps.push_back(p[j]);
        string nm = NM[(start + k) % 6];
        bindBoth(D, layout(nm, ps, false, (k * 3 + start) % 5, k % 5), k, (k * 3 + start) % 5);
        use(k, nm, p);
    }
    if (D.compile(uses)) D.run();
}
// Many functions.
static void many(uint64_t n) {
    df::Duo D(opt);
    string s;
    for (uint64_t k = 0; k < n; ++k) {
        bindBoth(D, "h" + I(k) + "(int): " + TY[k % 5], (int)(k % 60), (int)(k % 60 % 5));
        if (k % 60 % 5 != k % 5) mc::fail("machinery");
        if (k + 20 > n || k % 37 == 0) s += "out(h" + I(k) + "(" + I(k) + ")) ";
        if (k % 130 == 129) { if (!D.compile(s)) return; s = ""; }
    }
    for (uint64_t k = 0; k < n; k += 41) s += "h" + I(k) + "(" + I(k) + ") ";
    if (D.compile(s)) D.run();
}
// Many parameters and arguments.
static void wide(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(60), extra = (int)d(4), kind = (int)d(3);
    df::Duo D(opt);
    Sig s{{}, extra > 1, kind, 0};
    for (int k = 0; k < n; ++k) s.ps.push_back(kind == 2 ? k % 5 : 1 + kind * 2);
    bindBoth(D, "f0(): S", 1, 6);
    bindBoth(D, layout("f", s.ps, s.var, s.ret, 0), 0, s.ret);
    std::vector<string> a;
    for (int k = 0; k < n + extra - 1; ++k) a.push_back(kind == 2 ? (k % 5 == 1 ? I(k) : k % 5 == 3 ? "\"a" + I(k) + "\"" : VAL[k % 5]) : kind ? "\"t" + I(k) + "\"" : I(k * 3));
    if (D.compile(string(PRE) + "x := f(" + join(a, ", ") + ") out(x) func q(l: int) { m := l f(" + join(a, ", ") + ") out(l, m) } q(3)")) D.run();
}
// Any number of parameters: one argument too few, one too many, or one of another type.
static const int NPAR[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 100, 126, 127, 128, 129, 200};
static void exactly(uint64_t i) {
    mc::Digits d(i);
    int n = NPAR[d(25)], var = (int)d(2), kind = (int)d(3);
    Sig s{{}, var != 0, kind, 0};
    for (int k = 0; k < n; ++k) s.ps.push_back(kind == 2 ? k % 5 : 1 + kind * 2);
    auto val = [&](int k) { return kind == 2 ? string(k % 5 == 1 ? I(k) : k % 5 == 3 ? "\"a" + I(k) + "\"" : VAL[k % 5]) : kind ? "\"t" + I(k) + "\"" : I(k * 3); };
    df::Duo D(opt);
    bindBoth(D, layout("f", s.ps, s.var, s.ret, 0), 0, s.ret);
    auto call = [&](int c, int wrong) {
        std::vector<string> a;
        for (int k = 0; k < c; ++k) a.push_back(k == wrong ? "new Wrong{1}" : val(k));
        return "f(" + join(a, ", ") + ")";
    };
    // every compile below is compared: verdicts agree with the reference
    D.compile(string(PRE) + "struct Wrong { w: int }\n");
    for (int c : {0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 2, n + 16}) if (c >= 0) D.compile(call(c, -1));
    for (int k = 0; k < n; k += n > 70 ? 3 : 1) D.compile(call(n, k));
    D.compile(call(n + 1, n));
    if (D.compile(call(n, -1) + " " + call(n, -1))) D.run();
}
// Constants.
static const int64_t CI[] = {0, 1, -1, 255, 256, 257, 65535, 65536, 2147483647ll, -2147483648ll, 2147483648ll, 4294967296ll, INT64_MAX, INT64_MIN, -256, 128};
static const double CF[] = {0, -0.0, 1, -1, 0.5, 1e300, -1e-300, 123456.789, 3.0000000001, 1e20, 5e-324};
static string CS(int k) { return k < 255 ? string(1, (char)(k + 1)) : k < 275 ? string((k - 255) * (k - 255) * 7, (char)('a' + k % 26)) : k == 275 ? "" : k == 276 ? "with \"quotes\" and \\ and\n" : "plain"; }
static const int NCS = 278, NCONST = 16 + 11 + 2 + NCS;
static void constant(df::Duo &D, const char *n, int k) {
    if (k < 16) { Tiny_BindConstInt(D.I.s, n, CI[k]); D.R.S.constant(n, D.R.S.named("int", false), Val::mkInt(CI[k])); return; }
    k -= 16;
    if (k < 11) { Tiny_BindConstFloat(D.I.s, n, CF[k]); D.R.S.constant(n, D.R.S.named("float", false), Val::mkFloat(CF[k])); return; }
    k -= 11;
    if (k < 2) { Tiny_BindConstBool(D.I.s, n, k); D.R.S.constant(n, D.R.S.named("bool", false), Val::mkBool(k)); return; }
    string s = CS(k - 2), copy = s;
    Tiny_BindConstString(D.I.s, n, copy.c_str());
    memset(&copy[0], 'X', copy.size());
    D.R.S.constant(n, D.R.S.named("str", false), D.R.str(s));
}
static const char *CU[] = {"out(C)", "x := C out(x)", "func q(): any { return cast(C, any) } out(q(), C == C)", "C = C", "C := 1", "C :: 2", "x := C x += C out(x)", "func q(C: int) { out(C) } q(5)", "func q() { C := 3 out(C) } q() out(C)", "struct C { a: int } out(C)",
                            "i: int = C out(i)", "s: str = C out(s)", "f: float = C out(f)", "b: bool = C out(b)", "if C { out(1) }", "out(-C)", "D :: C", "C()", "C += 1", "out(C.x)", "for i := 0; i < C && i < 3; i += 1 { out(i) }", "out(D, C, D)", "func q(p: str): str { return hs(p, C) } out(q(D))"};
static const int NCU = 23;
static void constants(uint64_t i) {
    mc::Digits d(i);
    int k = (int)d(NCONST), u = (int)d(NCU), when = (int)d(3);
    df::Opt o = opt;
    o.gc = i % 2 ? 0 : -1;
    df::Duo D(o);
    // the reference's strings live until the next run: numbers and booleans only are bound before a second run
    if (when < 2) constant(D, "C", k);
    if (when == 1 && !D.compile("before := 1 out(before)")) return;
    if (when == 2) { if (!D.compile("before := 1 out(before)")) return; constant(D, "C", k); }
    constant(D, "D", (k * 5 + 3) % NCONST);
    if (D.compile(CU[u])) {
        // D.run() clears the reference's strings, which constants refer to
        std::deque<string> keep;
        keep.swap(D.R.strs);
        D.run();
    }
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::Opt();
        opt.checkGlobals = false;
        optGc = opt;
        optGc.gc = 0;
        int np = mc::thorough ? 3 : 2;
        auto desc = [](uint64_t i) { Sig s = sigAt(i); return layout("f", s.ps, s.var, s.ret, s.style); };
        mc::family("signatures", (NT + 2) * 2 * mc::seqCount(NT, np), [](uint64_t i) { allCalls(sigAt(i), i % 3 == 0); }, desc);
        mc::family("plain-name", 8, [](uint64_t i) {
            df::Duo D(opt);
            bindBoth(D, "f0(): S", 1, 6);
            bindBoth(D, i & 1 ? "f" : "  f  ", 0, (int)(i / 2) % 5);
            if (!D.compile(PRE)) return;
            string s;
            for (int n = 0; n < 6; ++n) { std::vector<string> a; for (int k = 0; k < n; ++k) a.push_back(VAL[(k * 5 + n) % NV]); s += "out(f(" + join(a, ", ") + ")) "; }
            if (D.compile(s)) D.run();
        });
        for (int n = 2; n <= (mc::thorough ? 5 : 4); ++n)
            mc::family("several-" + I(n), (n + 1) * 6 * mc::power(6, n), [n](uint64_t i) { several(i, n); });
        mc::family("many", 700, many);
        mc::family("exactly", 25 * 2 * 3, exactly, [](uint64_t i) { return I(NPAR[i % 25]) + " parameters, kind " + I(i / 25); });
        mc::family("wide", 60 * 4 * 3, wide);
        mc::family("constants", NCONST * NCU * 3, constants, [](uint64_t i) { mc::Digits d(i); int k = (int)d(NCONST), u = (int)d(NCU); return "constant " + I(k) + " in " + CU[u]; });
    });
}
