// P03: calls.
#include "diff.hpp"
#include "gen.hpp"
using namespace gen;
static const char *T5[] = {"int", "float", "bool", "str", "any"};
static string val(int t, int k) {
    switch (t) {
        case 0: return I(k * 3 + 1);
        case 1: return I(k) + ".25";
        case 2: return k % 2 ? "true" : "false";
        case 3: return "\"s" + I(k) + "\"";
        default: return k % 3 ? "cast(" + I(k) + ", any)" : "null";
    }
}
// n parameters, m locals, local declarations before/after uses, call form, type pattern
static int NP, ML;
static string arity(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(NP), m = (int)d(ML), pat = (int)d(4), form = (int)d(4), ret = (int)d(3);
    auto ty = [&](int k) { return pat == 0 ? 0 : pat == 1 ? k % 5 : pat == 2 ? (k * 7 + 3) % 5 : 3; };
    std::vector<string> ps, as;
    string body, use;
    for (int k = 0; k < n; ++k) {
        ps.push_back("p" + I(k) + ": " + T5[ty(k)]);
        as.push_back(val(ty(k), k));
        use += "out(p" + I(k) + ") ";
    }
    for (int k = 0; k < m; ++k) { body += "v" + I(k) + " := " + val(ty(k + 1), k + 50) + " "; use += "out(v" + I(k) + ") "; }
    if (n) { body += "p" + I(n / 2) + " = " + val(ty(n / 2), 77) + " "; }
    string r = ret == 0 ? "" : ret == 1 ? ": int" : ": any";
    string s = "func g(a: int, b: int): int { c := a * 10 d := b oi(c) return c + d }\nfunc f(" + join(ps, ", ") + ")" + r + " {\n" + body + use;
    s += "oi(g(1, 2)) " + use;
    if (ret == 1) s += "return g(4, g(5, 6)) ";
    s += "}\n";
    string call;
    if (form == 1 && n) { auto rest = as; rest.erase(rest.begin()); call = as[0] + "->f(" + join(rest, ", ") + ")"; }
    else call = "f(" + join(as, ",") + (form == 2 && n ? "," : "") + ")";
    if (form == 3) {
        s += "func h(q: int) { w := 31 u := \"u\" " + (ret ? "out(" + call + ", q, w, u)" : call) + " " + call + " oi(q) oi(w) os(u) }\nh(8) h(9)\n";
        return s;
    }
    s += "z := 12 " + (ret ? "out(" + call + ")" : call) + "\noi(z) " + call + "\n";
    return s;
}
// foreign calls with 0..n arguments
static string foreignArgs(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(NP), pat = (int)d(5), form = (int)d(3);
    std::vector<string> as;
    for (int k = 0; k < n; ++k) as.push_back(pat == 4 ? val(k % 5, k) : pat == 3 ? "ti(" + I(k) + ")" : val(pat, k));
    string c = "out(" + join(as, ", ") + ")";
    if (form == 1) return "func f(a: int): int { b := a " + c + " " + c + " return b }\noi(f(4) + f(5))\n";
    if (form == 2) return "x := 0 while x < 3 { x += 1 " + c + " hs(\"a\", x) os(hs(\"b\", x)) }\n";
    return c + "\nout(hs(" + join(as, ", ") + "))\n";
}
// all bodies of three mutually calling functions from a statement alphabet
static const char *STM[] = {"oi(a)", "oi(b)", "a = a + 10", "{ b2 := a * 2 oi(b2) }", "if a > 0 { oi(@(a - 1, a)) }", "@(0, 5)", "return a * 100 + b", "if a < 3 return a",
                            "b = @(a - 4, 1) + b", "{ c := b b = c + @(-1, c) oi(c) }", "while a > 4 { a = a - 3 if @(0, a) > 2 break }"};
static const int NS = 11;
static string graph(uint64_t i, int len) {
    mc::Digits d(i);
    string s = "n := 0\n";
    const char *N[] = {"f", "g", "h"};
    for (int k = 0; k < 3; ++k) {
        s += string("func ") + N[k] + "(a: int, b: int): int { n = n + 1 if n > 40 return 7 ";
        for (int q = 0; q < (k == 0 ? len : k == 1 ? 2 : 1); ++q) s += sub(STM[d(NS)], "@", N[(k + 1 + q) % 3]) + " ";
        s += "return a + b }\n";
    }
    s += "oi(f(5, 2)) oi(n) oi(g(1, 0) + f(0, 3) * 2) f(2, 2)\n";
    return s;
}
static int glen;
static string graphs(uint64_t i) { return graph(i, glen); }
// temporaries pending while calls happen: all expressions with 4 leaves
static const char *LEAF[] = {"1", "x", "f(2)", "g(3, f(4))", "l", "p", "h()", "r(5)", "5->g(6)", "s.k(1)"};
static string temps(uint64_t i) {
    mc::Digits d(i);
    static const char *SH[] = {"A + B - C * D", "(A - B) * (C + D)", "A - (B - (C - D))", "g(A, B) + g(C, D)", "g(g(A, B), g(C, D)) + A", "w(A, B, C, D)"};
    string e = SH[d(6)];
    string r;
    int nl = 9;
    string L[4] = {LEAF[d(nl)], LEAF[d(nl)], LEAF[d(nl)], LEAF[d(nl)]};
    for (size_t k = 0; k < e.size(); ++k) {
        bool lone = e[k] >= 'A' && e[k] <= 'D';
        r += lone ? L[e[k] - 'A'] : string(1, e[k]);
    }
    return "x := 7\nfunc f(a: int): int { oi(a) t := a * 2 return t }\nfunc g(a: int, b: int): int { t := a u := b oi(t * 100 + u) return t - u }\n"
           "func h(): int { oi(-1) return 11 }\nfunc r(n: int): int { if n <= 0 return 0 t := n return t + r(n - 1) }\n"
           "func w(a: int, b: int, c: int, d: int): int { return a + b * 2 + c * 4 + d * 8 }\n"
           "func run(p: int): int { l := 13 y := " + r + " oi(l) oi(p) return y }\noi(run(17)) oi(run(18) + run(19)) oi(x)\n";
}
// recursion depth, locals per frame
static string recursion(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(64), kind = (int)d(4), loc = (int)d(2);   // n = 63 is the configured call depth
    string L = loc ? "v := n * 2 " : "";
    string V = loc ? "v" : "n * 2";
    if (kind == 0) return "func f(n: int): int { " + L + "if n == 0 return 0 return f(n - 1) + 1 }\noi(f(" + I(n) + "))\n";
    if (kind == 1) return "func a(n: int) { if n == 0 return; oi(n) b(n - 1) }\nfunc b(n: int) { if n == 0 return; oi(-n) a(n - 1) }\na(" + I(n) + ") oi(5)\n";
    if (kind == 2) return "func f(n: int): bool { if n == 0 return true " + L + " return if g(n - 1) false else true }\nfunc g(n: int): bool { if n == 0 return false return if f(n - 1) false else true }\nob(f(" + I(n) + "))\n";
    return "c := 0\nfunc f(n: int) { c += 1 if n > 1 { f(n - 1) f(n - 2) } }\nf(" + I(n % 11) + ") oi(c)\n";
}
// falling off the end, in every return type and body shape
static string fallOff(uint64_t i) {
    mc::Digits d(i);
    static const char *R[] = {"int", "float", "bool", "str", "any", "P", "int?", "nat", "P?"};
    static const char *B[] = {"", "x := 1", "oi(1)", "if tb(false) return K", "if tb(true) return K", "while tb(false) return K", "{ }", "if tb(true) { if tb(false) return K } else return K",
                              "for i := 0; i < 3; i += 1 { if i == 2 return K }", "g(3)", "q := g(3) oi(q)", "ta(9)"};
    static const char *K[] = {"5", "1.5", "true", "\"s\"", "null", "new P{3}", "6", "mknat()", "new P{4}"};
    int r = (int)d(9), b = (int)d(12), b2 = (int)d(12);
    return string("struct P { v: int }\nfunc g(a: int): int { return a * 2 }\nfunc f(): ") + R[r] + " { " + sub(string(B[b]) + " " + (b2 == 1 || b2 == 10 ? sub(B[b2], "x", "y") : string(B[b2])), "K", K[r]) + " }\n" +
           "oi(1) out(f()) f() oi(2) f() g(8) out(f(), f())\n";
}
// the same at every depth of calls
static string fallDeep(uint64_t i) {
    mc::Digits d(i);
    int depth = (int)d(mc::thorough ? 55 : 20) + 1, a = (int)d(144), r = (int)d(9);
    if (!mc::thorough && a % 12 != 2 && a / 12 % 7) return "";
    string s = fallOff((uint64_t)r + 9 * (uint64_t)a);
    size_t k = s.find("oi(1) out(f())");
    return s.substr(0, k) + "func at(n: int): int { if n > 0 { x := at(n - 1) out(f(), x) return x + 1 } " + s.substr(k, s.size() - k - 1) + " return 0 }\nat(" + I(depth) + ")\n";
}
// calls as statements many times: the stack must not grow
static string churn(uint64_t i) {
    mc::Digits d(i);
    static const char *C[] = {"f(1)", "g()", "ti(3)", "out(1, 2)", "hs(\"a\")", "4->f()", "v(1, \"x\", 2.5)", "h(h(2))", "k()", "oi(f(2))", "if f(1) == 1 g()", "x = f(x)"};
    int a = (int)d(12), b = (int)d(12), n = (int)d(2) ? 200 : 3, ctx = (int)d(3);
    string body = string(C[a]) + " " + C[b] + " ";
    string s = "x := 0\nfunc f(a: int): int { return a }\nfunc g() { y := 1 }\nfunc v(a: int, b: str, c: float): any { return null }\nfunc h(a: int): int { b := a return b }\nfunc k(): int { }\n";
    string loop = "for i := 0; i < " + I(n) + "; i += 1 { " + body + "}";
    if (ctx == 1) return s + "func run() { " + loop + " }\nrun() oi(x)\n";
    if (ctx == 2) return s + "func run(a: int): int { if a == 0 return 5 " + sub(loop, I(n), "2") + " return run(a - 1) }\noi(run(6)) oi(x)\n";
    return s + loop + " oi(x)\n";
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        NP = mc::thorough ? 100 : 60;
        ML = mc::thorough ? 12 : 6;
        glen = mc::thorough ? 4 : 2;
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { string s = g(i); if (!s.empty()) df::compare(s); }, [g](uint64_t i) { return g(i); });
        };
        fam("arity", (uint64_t)NP * ML * 4 * 4 * 3, arity);
        fam("foreign", NP * 5 * 3, foreignArgs);
        fam("recursion", 64 * 4 * 2, recursion);
        fam("falloff", 9 * 12 * 12, fallOff);
        fam("falloff-deep", (mc::thorough ? 55 : 20) * 144 * 9, fallDeep);
        fam("churn", 12 * 12 * 2 * 3, churn);
        fam("temps", 6 * mc::power(9, 4), temps);
        fam("graphs", mc::power(NS, glen + 3), graphs);
    });
}
