// P29: programs keep their meaning at every size the compiler accepts.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
static df::Opt opt;
static int hostFuncs, hostTypes, hostConsts;      // further bindings of the host
static int accepted[64];
// Compares when the compiler accepts; sizes below `must` have to be accepted.
static void same(const string &src, bool must, const std::vector<string> &more = {}) {
    df::Impl *probe = new df::Impl(opt.binder);
    bool ok = probe->compile(src);
    for (auto &m : more) ok = ok && probe->compile(m);
    string err = probe->err;
    delete probe;
    if (!ok) {
        if (err.empty()) mc::fail("rejected without a message\n%s", df::clip(src, 400).c_str());
        if (must) mc::fail("rejected: %s\n%s", df::clip(err, 400).c_str(), df::clip(src, 400).c_str());
        mc::noteSkip();
        return;
    }
    df::Duo D(opt);
    ok = D.compile(src);
    for (auto &m : more) ok = ok && D.compile(m);
    if (ok) D.run();
}
typedef string (*Gen)(int n);
struct Dim { const char *name; Gen g; int dense, big, must; };
static string seq(int n, const string &each, const string &sep = " ") { string s; for (int k = 0; k < n; ++k) s += (k ? sep : "") + sub(sub(each, "@@", I(k / 2)), "@", I(k)); return s; }
static const std::vector<Dim> DIM = {
    {"globals", [](int n) { return seq(n, "g@ := ti(@)\n") + seq(n, "g@ += 1 oi(g@@)\n") + "func all() { " + seq(n, "oi(g@)\n") + " } all()"; }, 400, 1100, 300},
    {"functions", [](int n) { return seq(n, "func f@(a: int): int { return a * 3 + @ }\n") + seq(n, "oi(f@(1))\n") + "i := 0 while i < " + I(n) + " { i += 1 }"; }, 400, 1100, 300},
    {"strings", [](int n) { return seq(n, "os(\"s@\")\n") + seq(n, "os(\"s@@\")\n"); }, 600, 1100, 300},
    {"string-values", [](int n) { return seq(n, "a@ := \"t@\"\n") + "x := " + (n ? "a" + I(n - 1) : string("\"none\"")) + " os(x) ob(x == \"t" + I(n - 1) + "\") ob(x == \"t0\")"; }, 300, 900, 200},
    {"fields", [](int n) { return "struct S { v: int " + seq(n, "f@: int") + " } func mk(): S? { }\nfunc fill(s: S) { " + seq(n, "s.f@ = @\n") + "} s := new S{7" + (n ? ", " + seq(n, "ti(@@)", ", ") : "") + "} " + seq(n, "oi(s.f@)\n") + " fill(s) " + seq(n, "oi(s.f@)\n") + " oi(s.v)"; }, 300, 300, 200},
    {"designated-fields", [](int n) { return "struct S { v: int " + seq(n, "f@: any") + " } s := new S{" + seq(n, ".f@ = ta(@)", ", ") + (n ? ", " : "") + ".v = 3} oi(s.v) " + seq(n, "dump(s.f@)\n"); }, 300, 300, 200},
    {"locals", [](int n) { return "func f(a: int): int { " + seq(n, "l@ := a + @\n") + seq(n, "oi(l@)\n") + seq(n, "l@ += 5\n") + seq(n, "l@@ = l@\n") + seq(n, "oi(l@)\n") + " return a } oi(f(3)) oi(f(4))"; }, 300, 300, 200},
    {"sibling-scopes", [](int n) { return "func f(a: int): int { " + seq(n, "if a > 0 { l := a + @ oi(l) } ") + " z := a return z } oi(f(1)) oi(f(0))"; }, 300, 300, 200},
    {"nested-locals", [](int n) { return "func f(a: int): int { " + seq(n, "{ l@ := a + @ ", "") + seq(n, "oi(l@) ") + rep("}", n) + " return a } oi(f(1))"; }, 150, 250, 100},
    {"parameters", [](int n) { return "func f(" + seq(n, "p@: int", ", ") + "): int { r := 0 " + seq(n, "r = r * 3 + p@\n") + seq(n, "p@ = p@@ + 1\n") + seq(n, "oi(p@)\n") + " return r } oi(f(" + seq(n, "ti(@)", ", ") + "))"; }, 262, 262, 200},
    {"parameters-and-locals", [](int n) { return "func f(" + seq(n, "p@: int", ", ") + "): int { " + seq(n, "l@ := p@ + 1\n") + seq(n, "oi(l@) oi(p@@)\n") + seq(n, "p@ = l@ l@ += 1\n") + seq(n, "oi(l@) oi(p@)\n") + " return 8 } oi(f(" + seq(n, "ti(@)", ", ") + "))"; }, 262, 262, 200},
    {"arguments", [](int n) { return "dump(" + seq(n, "ti(@)", ", ") + ") out(" + seq(n, "@", ", ") + ")"; }, 262, 262, 200},
    {"string-arguments", [](int n) { return "os(hs(" + seq(n, "\"a@\"", ", ") + ")) os(strcat(\"x\", \"y\"" + (n ? ", " : string("")) + seq(n, "\"@@\"", ", ") + "))"; }, 262, 262, 200},
    {"statements", [](int n) { return "i := 0 " + seq(n, "i += 1\n") + "oi(i)"; }, 400, 40000, 400},
    {"statements-in-if", [](int n) { return "i := 0 if tb(true) { " + seq(n, "i += 1\n") + "} else { " + seq(n, "i -= 1\n") + "} oi(i) if tb(false) { " + seq(n, "i += 1\n") + "} else { " + seq(n, "i -= 2\n") + "} oi(i)"; }, 400, 12000, 400},
    {"statements-in-while", [](int n) { return "i := 0 n := 0 while n < 3 { n += 1 if n == 2 { continue } " + seq(n, "i += 1\n") + "if i < 0 { break } } oi(i) oi(n)"; }, 400, 12000, 400},
    {"statements-in-for", [](int n) { return "i := 0 for n := 0; n < 5; n += 1 { if n == 1 { continue } if n == 3 { break } " + seq(n, "i += @\n") + "} oi(i)"; }, 400, 12000, 400},
    {"statements-in-function", [](int n) { return "func f(a: int): int { if a == 0 { return 5 } " + seq(n, "a += 1\n") + "return a } oi(f(0)) oi(f(1)) func g(): int { return 6 } oi(g())"; }, 400, 12000, 400},
    {"statements-around-and", [](int n) { return seq(n, "oi(@)\n") + "ob(tb(true) && tb(false) || tb(true)) if tb(false) && tb(true) { oi(1) } oi(if tb(true) 1 else 2) while tb(false) { }"; }, 300, 5000, 300},
    {"if-nesting", [](int n) { return "i := 0 " + rep("if tb(true) { i += 1 ", n) + "oi(i) " + rep("} else { oi(-1) } ", n) + "oi(i)"; }, 120, 200, 60},
    {"while-nesting", [](int n) { n = n % 12; string s; for (int k = 0; k < n; ++k) s += "w" + I(k) + " := 0 while w" + I(k) + " < 2 { w" + I(k) + " += 1 "; return "i := 0 func f() { i += 1 } " + (n ? "func g() { " + s + "f() " + rep("} ", n) + "} g() " : string("")) + "oi(i)"; }, 12, 12, 12},
    {"break-nesting", [](int n) { string s, e; for (int k = 0; k < n; ++k) { s += "while tb(true) { "; e += k % 2 ? "break } oi(" + I(k) + ") " : "oi(-1) break } "; } return s + e; }, 80, 120, 60},
    {"block-nesting", [](int n) { return "i := 0 " + rep("{ i += 1 ", n) + rep("} ", n) + "oi(i)"; }, 150, 250, 100},
    {"else-ifs", [](int n) { return "func f(a: int): int { " + string("if a < 0 { return 99 } ") + seq(n, "else if a == @ { return @@ + 7 } ") + "else { return 77 } return 1 } " + "oi(f(-1)) oi(f(0)) oi(f(" + I(n / 2) + ")) oi(f(" + I(n - 1) + ")) oi(f(" + I(n) + "))"; }, 200, 300, 100},
    {"parens", [](int n) { return "oi(" + rep("(", n) + "ti(5)" + rep(" + 1)", n) + ")"; }, 150, 250, 100},
    {"right-nesting", [](int n) { return "oi(" + rep("ti(2) + (", n) + "1" + rep(")", n) + ")"; }, 150, 250, 100},
    {"operators", [](int n) { return "oi(ti(1)" + rep(" + 2 - 1", n) + ") ob(tb(true)" + rep(" && tb(true)", n) + " && tb(false)) ob(tb(false)" + rep(" || tb(false)", n) + " || tb(true))"; }, 200, 400, 100},
    {"unary", [](int n) { return "oi(" + rep("- ", n) + "ti(5)) ob(" + rep("!", n) + "tb(true))"; }, 150, 250, 100},
    {"ternaries", [](int n) { return "func f(a: int): int { return " + seq(n, "if a == @ @@ else ", "") + "-1 } oi(f(0)) oi(f(" + I(n - 1) + ")) oi(f(" + I(n) + "))"; }, 150, 250, 100},
    {"call-nesting", [](int n) { return "func f(a: int): int { return a + 1 } oi(" + rep("f(", n) + "1" + rep(")", n) + ") oi(" + rep("ti(", n) + "1" + rep(")", n) + ")"; }, 150, 250, 100},
    {"arrows", [](int n) { return "func f(a: int): int { return a * 3 - 1 } oi(1" + rep("->f()", n) + ")"; }, 150, 250, 100},
    {"fields-of-fields", [](int n) { return "struct N { v: int n: N? m: any } func no(): N? { } a := new N{1, no(), null} a.m = cast(a, any) x := a " + seq(n, "x = new N{@, x, null} ") + "struct P { p: P v: int } oi(x.v)"; }, 200, 900, 200},
    {"index-nesting", [](int n) { return "use array(\"int\") as ai l := ai(" + seq(20, "@", ", ") + ") oi(" + rep("l[", n) + "ti(3)" + rep("]", n) + ")"; }, 150, 250, 100},
    {"identifier", [](int n) { string a = string(n + 1, 'a'), b = a + "b"; return a + " := 1 " + b + " := 2 func f" + a + "(" + a + "x: int): int { " + b + "y := " + a + "x return " + b + "y + " + a + " } oi(f" + a + "(" + b + ")) struct S" + a + " { " + a + ": int } z := new S" + a + "{4} oi(z." + a + ") oi(" + a + ") oi(" + b + ")"; }, 600, 20000, 600},
    {"string-length", [](int n) { return "s := \"" + string(n, 's') + "\" oi(strlen(s)) os(s) os(strcat(s, \"x\")) ob(s == \"" + string(n, 's') + "\") ob(s == \"" + string(n, 's') + "t\")"; }, 600, 70000, 600},
    {"escapes", [](int n) { return "s := \"" + rep("\\\"\\\\\\n", n) + "\" oi(strlen(s)) os(s)"; }, 300, 5000, 300},
    {"comment", [](int n) { return "oi(1) //" + string(n, 'c') + "\n oi(2) " + rep("//\n", n) + "oi(3)"; }, 600, 70000, 600},
    {"blanks", [](int n) { return "oi(" + string(n, ' ') + "1" + string(n, '\n') + ")" + string(n, '\t') + "oi(2)"; }, 600, 70000, 600},
    {"digits", [](int n) { return "oi(" + string(n, '0') + "1) of(" + string(n % 300, '0') + "1.5) of(0." + string(n % 300, '0') + "5) oi(0x" + string(n, '0') + "1F)"; }, 400, 3000, 60},
    {"ints", [](int n) { string s; for (int k = 0; k < n; ++k) s += "oi(" + I((long long)((uint64_t)k * 0x9E3779B97F4A7C15ull >> 1)) + ") "; return s; }, 300, 3000, 300},
    {"floats", [](int n) { return seq(n, "of(@.25)\n"); }, 300, 1000, 300},
    {"consts", [](int n) { return seq(n, "K@ :: @\nL@ :: \"c@\"\nM@ :: @.5\n") + seq(n, "oi(K@) os(L@@) of(M@)\n"); }, 300, 400, 250},
    {"structs", [](int n) { return seq(n, "struct T@ { a: int b: T@@ }\n") + seq(n, "func f@(t: T@): int { return t.a + @ } ") + seq(n, "func n@(): T@? { } "); }, 200, 600, 150},
    {"structs-used", [](int n) { return seq(n, "struct T@ { a: int s: str } t@ := new T@{@, \"x\"} ") + seq(n, "t@.a += t@@.a oi(t@.a) "); }, 250, 500, 200},
    {"breaks", [](int n) { return "i := 0 while i < 1000 { i += 1 " + seq(n, "if i == @ + 5000 { break } if i == @ + 6000 { continue } ") + "if i > 3 { break } oi(i) } oi(i)"; }, 200, 1500, 200},
    {"returns", [](int n) { return "func f(a: int): int { " + seq(n, "if a == @ { return @@ } ") + "return -1 } oi(f(0)) oi(f(" + I(n / 3) + ")) oi(f(" + I(n - 1) + ")) oi(f(" + I(n) + "))"; }, 200, 2000, 200},
    {"array-elements", [](int n) { return "use array(\"int\") as ai l := ai() for i := 0; i < " + I(n) + "; i += 1 { ai_push(l, i * 7) } oi(ai_len(l)) for j := 0; j < " + I(n) + "; j += 1 { if l[j] != j * 7 { oi(j) } } while ai_len(l) > 0 { ai_pop(l) }"; }, 150, 3000, 150},
    {"dict-entries", [](int n) { return "d := dict() for i := 0; i < " + I(n) + "; i += 1 { d[int_to_str(i)] = i * 7 } ok := true for j := 0; j < " + I(n) + "; j += 1 { if cast(d[int_to_str(j)], int) != j * 7 { ok = false } } ob(ok) ob(dict_exists(d, int_to_str(" + I(n) + ")))"; }, 150, 300, 150},
    {"recursion", [](int n) { n = n % 64; return "func f(n: int): int { x := n * 2 if n == 0 { return 0 } y := f(n - 1) return x + y } oi(f(" + I(n) + "))"; }, 64, 64, 64},
    {"local-names", [](int n) { return seq(n, "func f@(a: int): int { b := a * 2 c := b + @ return c }\n") + seq(n, "oi(f@(@@)) "); }, 200, 600, 200},
    {"macros", [](int n) { return seq(n, "use array(\"int\") as a@\n") + seq(n, "x@ := a@(@) a@_push(x@, @@) oi(x@[1]) "); }, 60, 120, 40},
    {"delegates", [](int n) { return seq(n, "func f@(x: int): int { return x + @ } use delegate(\"f@\") as m@\n") + seq(n, "d@ := m@() oi(delegate_int_int_call(d@, @@)) "); }, 100, 200, 60},
};
static std::vector<int> sizes(const Dim &d) {
    std::vector<int> v;
    int top = mc::thorough ? d.big : std::min(d.big, 4100), dense = d.dense;
    for (int k = 0; k < dense; ++k) v.push_back(k);
    for (int p = 64; p <= top; p *= 2) for (int e = -2; e <= 2; ++e) if (p + e >= dense && p + e <= top) v.push_back(p + e);
    for (int k : {1000, 1020, 10000, 13107, 16380, 21845, 25000, 30000, 32765}) if (k >= dense && k <= top) for (int e = 0; e < 8; ++e) v.push_back(k + e);
    if (mc::thorough) for (int k = dense; k < std::min(d.big, dense + 800); ++k) v.push_back(k);
    return v;
}
// Two dimensions at once: what one adds moves the indices and positions of the other.
static const std::vector<int> EDGE = {0, 1, 100, 253, 254, 255, 256, 257, 258, 300};
static const std::vector<std::pair<const char *, Gen>> PREFIX = {
    {"globals", [](int n) { return seq(n, "pg@ := @\n"); }}, {"functions", [](int n) { return seq(n, "func pf@() { }\n"); }}, {"strings", [](int n) { return seq(n, "out(\"ps@\")\n"); }}, {"structs", [](int n) { return seq(n, "struct Ps@ { q: int }\n"); }}, {"code", [](int n) { return seq(n, "out(@)\n"); }}, {"constants", [](int n) { return seq(n, "Pk@ :: @\n"); }}};
// Programs of ordinary size behind them.
static const std::vector<string> AFTER = {
    "a := 1 b := \"b\" func f(x: int): int { y := x + a return y } oi(f(2)) os(b) a = f(a) oi(a)", "struct S { v: int w: str } s := new S{1, \"w\"} s.v = 5 oi(s.v) os(s.w)", "func g(n: int): int { if n <= 1 { return 1 } return n * g(n - 1) } oi(g(5)) os(\"end\")", "for i := 0; i < 4; i += 1 { if i == 2 { continue } os(\"it\") oi(i) } while tb(false) { }",
    "use array(\"str\") as strs l := strs(\"p\", \"q\") l[1] = \"r\" os(l[0]) os(l[1])", "K :: \"konst\" os(K) L :: 12345678901 oi(L) x := \"konst\" ob(x == K)", "d := dict(\"k\", 1) d[\"j\"] = 2 dump(d[\"k\"], d[\"j\"])", "func h(x: int): int { return x + 9 } use delegate(\"h\") as dh q := dh() oi(delegate_int_int_call(q, 4))", "struct J { a: int s: str } use json(\"J\") os(J_to_json(new J{4, \"t\"}))", "ob(tb(true) && tb(false)) oi(if tb(true) 4 else 5) of(2.5)"};
static TINY_FOREIGN_FUNCTION(fHost) { return Tiny_NewInt(Tiny_ToInt(args[0]) + count); }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto im = opt.binder; auto re = opt.refBinder;
        opt.binder = [im](Tiny_State *s) {
            im(s);
            for (int k = 0; k < hostFuncs; ++k) Tiny_BindFunction(s, ("hf" + I(k) + "(int): int").c_str(), fHost);
            for (int k = 0; k < hostTypes; ++k) Tiny_RegisterType(s, ("ht" + I(k)).c_str());
            for (int k = 0; k < hostConsts; ++k) Tiny_BindConstInt(s, ("hc" + I(k)).c_str(), k * 3);
        };
        opt.refBinder = [re](df::RefEnv &R) {
            re(R);
            for (int k = 0; k < hostFuncs; ++k) R.S.bind("hf" + I(k) + "(int): int", [](std::vector<ref::Val> &a) { return ref::Val::mkInt(a[0].i + 1); });
            for (int k = 0; k < hostTypes; ++k) R.S.registerType("ht" + I(k));
            for (int k = 0; k < hostConsts; ++k) R.S.constant("hc" + I(k), R.S.tInt, ref::Val::mkInt(k * 3));
        };
        opt.checkGlobals = false;
        static std::vector<std::vector<int>> SZ;
        for (auto &d : DIM) SZ.push_back(sizes(d));
        for (size_t k = 0; k < DIM.size(); ++k)
            if (!SZ[k].empty()) mc::family(DIM[k].name, SZ[k].size(), [k](uint64_t i) { int n = SZ[k][i]; same(DIM[k].g(n), n < DIM[k].must); }, [k](uint64_t i) { return string(DIM[k].name) + " of size " + I(SZ[k][i]); });
        uint64_t ne = EDGE.size(), np = PREFIX.size(), na = AFTER.size();
        mc::family("behind", np * np * ne * ne * na, [=](uint64_t i) {
            mc::Digits d(i);
            size_t p = d(np), q = d(np);
            int m = EDGE[d(ne)], n = EDGE[d(ne)];
            const string &a = AFTER[d(na)];
            if (p > q || (p == q && n)) return;
            if (!mc::thorough && n % 2 && m % 2) return;
            if (p == q) same(PREFIX[p].second(m), true, {a}); else same(PREFIX[p].second(m) + PREFIX[q].second(n) + a, true);
        });
        mc::family("host", 3 * 320 + 3 * 6, [](uint64_t i) {
            int kind = (int)(i % 3), n = (int)(i / 3);
            if (n >= 320) n = (int[]){511, 512, 513, 1000, 1024, 1025}[n - 320];
            (kind == 0 ? hostFuncs : kind == 1 ? hostTypes : hostConsts) = n;
            string s = "func f(a: int): int { return a * 2 } g := 4 s := \"s\"\n";
            for (int k : {0, 1, n / 2, n - 2, n - 1}) if (k >= 0 && k < n) s += kind == 0 ? "oi(hf" + I(k) + "(f(g)))\n" : kind == 1 ? "func t" + I(k) + "(x: ht" + I(k) + ") { }\n" : "oi(hc" + I(k) + " + f(1))\n";
            same(s + "os(s) oi(f(g))", true);
            hostFuncs = hostTypes = hostConsts = 0;
        });
        mc::family("units", 300, [](uint64_t i) {
            std::vector<string> u;
            for (uint64_t k = 0; k < i; ++k) u.push_back("u" + I(k) + " := " + I(k) + " func v" + I(k) + "(): int { return u" + I(k) + " + 1 } oi(v" + I(k / 2) + "()) os(\"" + I(k) + "\")");
            same("oi(0)", true, u);
        });
        mc::family("sibling-and-parameters", 16 * 16, [](uint64_t i) {
            static const int N[] = {0, 1, 2, 50, 120, 126, 127, 128, 129, 200, 250, 252, 253, 254, 255, 256};
            int p = N[i % 16], l = N[i / 16];
            same("func f(" + seq(p, "p@: int", ", ") + "): int { " + seq(l, "l@ := @ * 3\n") + "r := 0 " + seq(p, "r = r * 3 + p@\n") + seq(l, "r = r * 5 + l@\n") + seq(l, "l@ = @@\n") + seq(l, "r = r * 7 + l@\n") + seq(p, "p@ += 1 oi(p@)\n") + "return r } func g(x: int): int { y := f(" + seq(p, "x + @", ", ") + ") return y + x } oi(g(1)) oi(g(2))", p < 200 && l < 200);
        });
    });
}
