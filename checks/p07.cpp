// P07: structs.
#include "diff.hpp"
#include "gen.hpp"
using namespace gen;
static const string PRE = "struct N { v: int l: any r: N? s: str f: float }\nfunc id(n: N): N { return n }\nfunc setv(n: N, k: int) { n.v = k n = new N{99, null, n, \"z\", 0.5} n.v = 98 }\nfunc swap(x: N, y: N): N { t := x.v x.v = y.v y.v = t return x }\n"
                          "x := new N{1, null, q0(), \"x\", 0.25} y := new N{.s = \"y\", .v = 2, .f = 0.5, .r = x, .l = 3} z := x\nfunc q0(): N { }\n";
static const char *OP[] = {"x = y", "y = z", "z = x", "x = new N{7, y, z, \"n\", 1.5}", "x.v = 5", "y.v = y.v + 10", "z.v += 100", "x.l = cast(y, any)", "y.r = x", "z.r = z", "x.s = y.s", "y.f = x.f * 2", "z.f -= 1.0",
                           "setv(x, 41)", "y = id(z)", "x = swap(x, y)", "z.l = x.v", "z = cast(cast(x, any), N)", "y.l = null"};
static const int NO = 19;
static const string DUMP = "out(x, y, z, x == y, y == z, z == x, x != y)\n";
static int HL;
static string hist(uint64_t i) {
    string s = PRE;
    for (int t : mc::seqAt(NO, i)) s += string(OP[t]) + "\n" + DUMP;
    return s + DUMP;
}
static string histFun(uint64_t i) {
    string s = sub(PRE, "x := new", "func run() { x := new");
    // the function q0 must stay outside
    s = sub(s, "z := x\nfunc q0(): N { }\n", "z := x\n");
    for (int t : mc::seqAt(NO, i)) s += string(OP[t]) + " ";
    return "func q0(): N { }\n" + s + DUMP + "}\nrun()\n";
}
// field counts: every count, every way to construct, every field written, host reads
static void fields(uint64_t i, bool describe, string *textOut) {
    mc::Digits d(i);
    int n = (int)d(255) + 1, how = (int)d(4), local = (int)d(2);
    static const char *T[] = {"int", "float", "str", "bool", "any"};
    auto val = [](int k, int add) -> string {
        switch (k % 5) { case 0: return I(k + add); case 1: return I(k + add) + ".5"; case 2: return "\"s" + I(k + add) + "\""; case 3: return (k + add) / 5 % 2 ? "true" : "false"; default: return "ta(" + I(k + add) + ")"; }
    };
    std::vector<string> a;
    string s = "struct A { one: int }\nstruct S {";
    for (int k = 0; k < n; ++k) s += " f" + I(k) + ": " + T[k % 5];
    s += " }\n";
    for (int k = 0; k < n; ++k) a.push_back(val(k, 1000));
    if (how) {
        std::vector<int> order;
        for (int k = 0; k < n; ++k) order.push_back(how == 1 ? k : how == 2 ? n - 1 - k : (k * 7 + 3) % n);
        if (how == 3 && n % 7 == 0) for (int k = 0; k < n; ++k) order[k] = (k + n / 2) % n;
        a.clear();
        for (int k : order) a.push_back(".f" + I(k) + " = " + val(k, 1000));
    }
    string body = "s := new S{" + join(a, ", ") + "} t := s u := new S{" + join(a, ", ") + "}\nout(s)\n";
    for (int k : {0, n / 2, n - 1, n > 1 ? 1 : 0}) body += "t.f" + I(k) + " = " + val(k, 5005) + " out(s.f" + I(k) + ", u.f" + I(k) + ")\n";
    for (int k = 0; k < n; ++k) body += "out(s.f" + I(k) + ")" + (k % 3 == 0 ? " u.f" + I(k) + " = " + val(k, 7070) : "") + "\n";
    body += "out(s) out(u) out(t == s, u == s)\n";
    if (local) s += "func run() {\n" + body + "}\nrun()\n"; else s += body;
    if (textOut) *textOut = s;
    if (!describe) df::compare(s);
}
// named fields in every order, with values whose evaluation shows; also one field named twice, or left out
static int OF;
static uint64_t orderCount() { uint64_t c = 0; for (int n = 1; n <= OF; ++n) { uint64_t f = 1; for (int k = 2; k <= n; ++k) f *= k; c += f; } return c * 3 * 5; }
static string orders(uint64_t i) {
    mc::Digits d(i);
    int ctx = (int)d(3), bad = (int)d(5), n = 1;
    uint64_t v = d.v;
    for (;; ++n) { uint64_t f = 1; for (int k = 2; k <= n; ++k) f *= k; if (v < f) break; v -= f; }
    std::vector<int> left, order;
    for (int k = 0; k < n; ++k) left.push_back(k);
    for (int m = n; m; --m) { order.push_back(left[v % m]); left.erase(left.begin() + (long)(v % m)); v /= m; }
    static const char *T[] = {"int", "str", "any", "float", "bool", "int", "str"};
    static const char *V[] = {"nx()", "ns()", "cast(nx(), any)", "nf()", "nb()", "(nx() - 2)", "st(nx(), ns())"};
    string s = "c := 0 func nx(): int { c += 1 out(c) return c }\nfunc ns(): str { if nx() < 4 return \"a\" return \"b\" }\nfunc nf(): float { if nx() < 3 return 1.5 return 2.5 }\nfunc nb(): bool { return nx() % 2 == 0 }\nfunc st(a: int, b: str): str { if a < 3 return b return \"c\" }\nstruct S {";
    for (int k = 0; k < n; ++k) s += string(" f") + I(k) + ": " + T[k % 7];
    s += " }\n";
    std::vector<string> a;
    for (int k : order) a.push_back(".f" + I(k) + " = " + V[k % 7]);
    if (bad == 1) a.back() = ".f" + I(order[0]) + " = " + V[order[0] % 7];       // for one field: itself
    if (bad == 2) a.pop_back();
    if (bad == 3) a.push_back(a[0]);
    if (bad == 4) a[0] = ".g = 1";
    string c = "new S{" + join(a, ", ") + "}";
    if (ctx == 0) return s + "s := " + c + "\nout(s, c)\n";
    if (ctx == 1) return s + "func run(p: int): S { l := " + c + " out(p, l) return " + c + " }\nr := run(4) out(r, c)\n";
    return s + "func take(a: int, s: S, b: int) { out(a, s, b) }\ntake(nx(), " + c + ", nx()) out(c)\n";
}
static void tooMany(uint64_t i) {
    string s = "struct S {";
    for (uint64_t k = 0; k < 250 + i; ++k) s += " f" + I(k) + ": int";
    df::compare(s + " }\nout(1)\n");
}
// identity through every kind of place
static string places(uint64_t i) {
    mc::Digits d(i);
    static const char *VIA[] = {"x", "id(x)", "b.p", "cast(a, P)", "(x)", "(if tb(true) x else y)", "id(id(b.p))", "b2.b.p", "g()", "x->id()"};
    string p = VIA[d(10)], q = VIA[d(10)];
    int w = (int)d(4);
    static const char *W[] = {"Q.v = 5", "Q.v += 5", "inc(Q)", "Q.w = Q.w + 1"};
    return "struct P { v: int w: int }\nstruct B { k: int p: P }\nstruct B2 { b: B }\nfunc id(p: P): P { return p }\nfunc inc(p: P) { p.v += 1 p.w = p.v }\nx := new P{1, 2} y := new P{3, 4} b := new B{0, x} b2 := new B2{b} a := cast(x, any)\nfunc g(): P { return x }\n" +
           sub(W[w], "Q", p) + "\nout(" + p + " == " + q + ", x, y, b, " + q + ".v, " + q + ".w)\n" + sub(W[w], "Q", q) + " x = y out(" + p + " == " + q + ", x, y, b, " + p + ".v)\n";
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        HL = mc::thorough ? 4 : 3;
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { df::compare(g(i)); }, [g](uint64_t i) { return g(i); });
        };
        mc::family("fields", 255 * 4 * 2, [](uint64_t i) { fields(i, false, nullptr); }, [](uint64_t i) { string s; fields(i, true, &s); return s; });
        mc::family("toomany", 60, tooMany);
        OF = mc::thorough ? 7 : 6;
        fam("orders", orderCount(), orders);
        fam("places", 10 * 10 * 4, places);
        fam("histories", mc::seqCount(NO, HL), hist);
        fam("inFunction", mc::seqCount(NO, HL), histFun);
    });
}
