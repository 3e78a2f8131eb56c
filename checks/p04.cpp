// P04: names and scopes.
#include "stdref.hpp"
#include "rename.hpp"
#include "gen.hpp"
using namespace gen;
static int LEN;
static const char *TOK[] = {"{", "}", "x := #", "x = #", "oi(x)", "y := x", "oi(y)", "for x := 0; x < 1; x += 1 {", "while oi2(x) {"};
static const int NT = 8;
struct Ctx { const char *pre, *post; bool fun; };
static const Ctx CT[] = {
    {"", "", false},
    {"x := 1\n", "oi(x)\n", false},
    {"func f() {", "}\nf()\n", true},
    {"x := 1\nfunc f() {", "}\nf() oi(x) f()\n", true},
    {"x :: 2\nfunc f() {", "}\nf() oi(x)\n", true},
    {"y :: 5\nfunc f(x: int) {", "oi(x) }\nf(3) f(4)\n", true},
    {"x := 1 y := 2\nfunc f(y: int, x: int) {", "}\nf(3, 4) oi(x) oi(y)\n", true},
    {"func g() { x := 70 y := 80 { z := 90 oi(z) } oi(x) }\nfunc f() {", "g() }\nf() g()\n", true},
    {"func f() {", "}\nf()\nx := 9\noi(x)\n", true},
    {"if tb(true) {", "}\noi(1)\n", false},
};
static const int NC = 10;
static string scopes(uint64_t i) {
    mc::Digits d(i);
    const Ctx &c = CT[d(NC)];
    auto seq = mc::seqAt(NT, d.v);
    string s = c.pre;
    int depth = 0, n = 10;
    for (int t : seq) {
        string w = TOK[t];
        if (w == "}") { if (!depth) return ""; --depth; }
        if (w.back() == '{') ++depth;
        s += sub(w, "#", I(++n)) + " ";
    }
    while (depth--) s += "} ";
    return s + c.post;
}
// two functions and globals sharing names: which one is meant
static const char *PLACE[] = {"", "x := #", "x :: #", "x: int = #", "{ x := # oi(x) }", "if tb(true) { x := # oi(x) }"};
static string places(uint64_t i) {
    mc::Digits d(i);
    int g0 = (int)d(4), g1 = (int)d(4), a = (int)d(6), b = (int)d(6), par = (int)d(3), use = (int)d(4);
    static const char *U[] = {"oi(x)", "x = x + 100 oi(x)", "x += 100 oi(x)", "y := x y = y + 1 oi(y) oi(x)"};
    string s = sub(PLACE[g0], "#", "1") + "\nfunc f(" + (par == 1 ? "x: int" : par == 2 ? "z: int" : "") + ") { " + (a == 2 ? "" : sub(PLACE[a], "#", "2")) + " " + U[use] + " }\n" + sub(PLACE[g1], "#", "3") +
               "\nfunc g(q: int) { " + (b == 2 ? "" : sub(PLACE[b], "#", "4")) + " oi(q) " + U[use] + " oi(q) }\n";
    return s + (par ? "f(5) " : "f() ") + "g(6) " + (par ? "f(7)" : "f()") + "\n" + (g0 || g1 ? "oi(x)\n" : "");
}
// sibling and nested scopes with many locals: storage never shared while live
static string storage(uint64_t i) {
    mc::Digits d(i);
    string s = "func f(p0: int, p1: int) {\n";
    std::vector<std::vector<string>> live(1);
    int n = 0;
    for (int k = 0; k < 6; ++k) {
        int a = (int)d(4);
        if (a == 0) { string v = "v" + I(n++); live.back().push_back(v); s += v + " := " + I(n * 11) + " "; }
        if (a == 1) { live.push_back({}); s += "{ "; }
        if (a == 2 && live.size() > 1) { for (auto &L : live) for (auto &v : L) s += "oi(" + v + ") "; live.pop_back(); s += "} "; }
        if (a == 3) { string v = "v" + I(n++); live.push_back({v}); s += "for " + v + " := 0; " + v + " < 2; " + v + " += 1 { "; }
    }
    while (live.size()) {
        for (auto &L : live) for (auto &v : L) s += v + " += 1 oi(" + v + ") ";
        s += "oi(p0) oi(p1) ";
        live.pop_back();
        s += "} ";
    }
    return s + "\nf(1001, 1002)\n";
}
// every kind of name clash and undeclared use, in every kind of position
static const char *DECL[] = {"a := 1", "a :: 1", "func a() { }", "struct a { v: int }", "func q(a: int) { }", "func q() { a := 1 }", "struct q { a: int }", "{ a := 1 }", "a: int = 1", "out(1)"};
static const char *USE[] = {"oi(a)", "a = 2", "a()", "x := new a{1}", "a += 1", "func k(z: a) { }", "out(a.v)", "x := cast(null, a)", "a->out()", "x := a", "if a == 1 { }", "oi(1->a())", "func k() { oi(a) }", "func k() { a() }", "struct r { z: a }", "a := a"};
static string clash(uint64_t i) {
    mc::Digits d(i);
    string x = DECL[d(10)], y = DECL[d(10)], u = USE[d(16)];
    int order = (int)d(4);
    string v = sub(y, "q", "q2");
    if (order == 0) return x + "\n" + u + "\n";
    if (order == 1) return u + "\n" + x + "\n";
    if (order == 2) return x + "\n" + v + "\n" + u + "\n";
    return x + "\n" + u + "\n" + v + "\n";
}
// two declarations of one name, of every kind, with other declarations before and between them
static const char *KIND[] = {"a :: 1", "a :: 1.5", "a :: \"s\"", "a :: true", "a :: 'c'", "a := 1", "a := 1.5", "a := \"s\"", "a := true", "a: any = null", "a: str = \"t\"", "a := new S{4}", "func a() { }", "func a(x: int): int { return x }",
    "struct a { v: int }", "func ff(a: int): int { a += 1 return a } out(ff(3))", "func fl(): int { a := 3 a += 1 return a } out(fl())", "{ a := 2 }", "for a := 0; a < 1; a += 1 { }", "if true { a :: 7 }", "func fc() { a :: 8 }", "b := a", "out(a)"};
static const int NKIND = sizeof(KIND) / sizeof(KIND[0]);
static string kinds(uint64_t i) {
    mc::Digits d(i);
    string x = KIND[d(NKIND)], y = KIND[d(NKIND)];
    int pad = (int)d(4), count = (int)d(9), where = (int)d(2);
    static const int N[] = {0, 1, 2, 127, 128, 254, 255, 256, 300};
    if (N[count] > 2 && (pad == 3)) return "";
    string p;
    for (int k = 0; k < N[count]; ++k) p += string("z") + I(k) + (pad == 0 ? " := 1\n" : pad == 1 ? " :: 1\n" : pad == 2 ? "() { }\n" : " := 2.5\n");
    if (pad == 2) p = sub("\n" + p, "\nz", "\nfunc z");
    string s = "struct S { v: int }\n";
    if (x.compare(0, 7, "func ff") == 0 && y == x) y = sub(y, "ff", "gg");
    if (x.compare(0, 7, "func fl") == 0 && y == x) y = sub(y, "fl", "gl");
    if (x.compare(0, 7, "func fc") == 0 && y == x) y = sub(y, "fc", "gc");
    return where ? s + p + x + "\n" + y + "\n" : s + x + "\n" + p + y + "\n";
}
// names which are prefixes of each other, differ in case, or contain keywords
static string spelled(uint64_t i) {
    static const char *N[] = {"a", "aa", "A", "a1", "a_", "a_1", "ab", "abc", "b", "ifx", "xif", "newer", "fork", "nulls", "trues", "returned", "castle", "useful", "structs", "func1", "foreigner", "elsewhere", "whiles", "breaks", "continues",
                              "foreachs", "int", "float1", "str", "any", "bool", "void", "as", "int_", "z9z"};
    int K = sizeof N / sizeof *N;
    mc::Digits d(i);
    string a = N[d(K)], b = N[d(K)];
    int form = (int)d(5);
    if (form == 0) return a + " := 1\n" + b + " := 2\nout(" + a + ", " + b + ")\n";
    if (form == 1) return "func f(" + a + ": int, " + b + ": int) { out(" + a + ", " + b + ") }\nf(1, 2)\n";
    if (form == 2) return "func f() { " + a + " := 1 " + b + " := 2 " + a + " = 5 out(" + a + ", " + b + ") }\nf()\n";
    if (form == 3) return "struct S { " + a + ": int " + b + ": int }\ns := new S{1, 2} s." + b + " = 7 out(s." + a + ", s." + b + ")\n";
    return "func x" + a + "(): int { return 1 }\nfunc x" + b + "(): int { return 2 }\nout(x" + a + "(), x" + b + "())\nc" + a + " :: 3 c" + b + " :: 4\nout(c" + a + ", c" + b + ")\n";
}
// names of any length which differ only at the end
static string alike(uint64_t i) {
    mc::Digits d(i);
    int len = (int)d(201), how = (int)d(4), form = (int)d(7);
    if (!mc::thorough && len > 70 && len % 10 > 1) return "";
    string pre;
    for (int k = 0; k < len; ++k) pre += (char)('a' + k % 26);
    string a = how == 0 ? pre + "x" : how == 1 ? pre + "q" : how == 2 ? "m" + pre : pre + "xyz", b = how == 0 ? pre + "y" : how == 1 ? pre + "qq" : how == 2 ? "n" + pre : pre + "xyZ";
    if (form == 0) return a + " := 1\n" + b + " := 2\n" + a + " = 3 out(" + a + ", " + b + ")\n";
    if (form == 1) return "func f(" + a + ": int, " + b + ": int): int { " + a + " = 9 out(" + a + ", " + b + ") " + b + " += 5 return " + a + " * 10 + " + b + " }\nout(f(1, 2))\n";
    if (form == 2) return "func f() { " + a + " := 1 " + b + " := 2 " + a + " = 5 out(" + a + ", " + b + ") }\nf()\n";
    if (form == 3) return "struct S { " + a + ": int " + b + ": int }\ns := new S{1, 2} s." + b + " = 7 out(s." + a + ", s." + b + ")\nt := new S{" + b + " = 3, " + a + " = 4} out(t." + a + ", t." + b + ")\n";
    if (form == 4) return "func x" + a + "(): int { return 1 }\nfunc x" + b + "(): int { return 2 }\nout(x" + a + "(), x" + b + "())\n";
    if (form == 5) return "c" + a + " :: 3 c" + b + " :: 4\nout(c" + a + ", c" + b + ")\n";
    return "struct x" + a + " { v: int }\nstruct x" + b + " { w: str }\np := new x" + a + "{1} q := new x" + b + "{\"s\"} out(p.v, q.w)\nfunc f(p: x" + b + "): str { return p.w } out(f(q))\n";
}
// declarations of one name inside a function
static const std::vector<string> INNER = {"a := 1", "a :: 2", "{ a := 3 out(a) }", "{ a :: 4 }", "for a := 0; a < 2; a += 1 { out(a) }", "b :: 5", "out(a)", "a += 6", "while tb(false) { a := 7 }"};
static int innerLen;
static string inner(uint64_t i) {
    uint64_t ns = mc::seqCount(INNER.size(), innerLen);
    auto q = mc::seqAt(INNER.size(), i % ns);
    int ctx = (int)(i / ns);
    string body;
    for (int k : q) body += INNER[k] + " ";
    switch (ctx) {
        case 0: return "func f() { " + body + " }\nf() f()\n";
        case 1: return "func f(a: int) { " + body + " }\nf(11) f(12)\n";
        case 2: return "a := 20\nfunc f() { " + body + " }\nf() out(a)\n";
        case 3: return "a :: 30\nfunc f() { " + body + " }\nf() out(a)\n";
        case 4: return "func f() { " + body + " }\na := 40\nf() out(a)\n";
        case 5: return "func f() { " + body + " }\nfunc g() { a := 50 out(a) }\nf() g()\n";
        case 6: return body + "\n";
        default: return "func g() { a := 70 out(a) }\nfunc f() { if tb(true) { " + body + " } else { " + body + " } }\ng() f()\n";
    }
}
// two names of a program become one
static string merged(uint64_t i) {
    mc::Digits d(i);
    int k = (int)d(corpus::units().size() + rn::MORE.size()), a = (int)d(16), b = (int)d(16);
    std::vector<string> t = corpus::tokens(k < (int)corpus::units().size() ? corpus::units()[k] : rn::MORE[k - corpus::units().size()]);
    rn::Names n = rn::collect(t);
    if (a == b || a >= (int)n.all.size() || b >= (int)n.all.size()) return "";
    std::map<string, string> to{{n.all[a], n.all[b]}};
    return rn::apply(t, n, to);
}
// one name of a program is exchanged for one the library or the language knows
static string taken(uint64_t i) {
    static const char *W[] = {"strlen", "out", "int", "str", "any", "nat", "natid", "array", "json", "delegate", "void", "null", "use", "foreach", "foreign", "as", "hs", "bool", "float", "dict_str_int_get", "strcat", "cast"};
    mc::Digits d(i);
    int k = (int)d(corpus::units().size() + rn::MORE.size()), a = (int)d(16), w = (int)d(22);
    std::vector<string> t = corpus::tokens(k < (int)corpus::units().size() ? corpus::units()[k] : rn::MORE[k - corpus::units().size()]);
    rn::Names n = rn::collect(t);
    if (a >= (int)n.all.size()) return "";
    std::map<string, string> to{{n.all[a], W[w]}};
    return rn::apply(t, n, to);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        LEN = mc::thorough ? 6 : 5;
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { string s = g(i); if (!s.empty()) df::compare(s); }, [g](uint64_t i) { return g(i); });
        };
        static df::Opt std = df::stdOpt();
        std.checkGlobals = false;
        auto famStd = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { string s = g(i); if (!s.empty()) df::compare(s, std); }, [g](uint64_t i) { return g(i); });
        };
        uint64_t np = corpus::units().size() + rn::MORE.size();
        famStd("merged", np * 256, merged);
        famStd("taken", np * 16 * 22, taken);
        fam("places", 4 * 4 * 6 * 6 * 3 * 4, places);
        fam("storage", 4096, storage);
        fam("clash", 10 * 10 * 16 * 4, clash);
        fam("kinds", (uint64_t)NKIND * NKIND * 4 * 9 * 2, kinds);
        fam("spelled", 35 * 35 * 5, spelled);
        fam("alike", 201 * 4 * 7, alike);
        innerLen = mc::thorough ? 5 : 4;
        fam("inner", mc::seqCount(INNER.size(), innerLen) * 8, inner);
        fam("scopes", mc::seqCount(NT, LEN) * NC, scopes);
    });
}
