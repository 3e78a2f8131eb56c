// P25: the generated JSON functions.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
static df::Opt opt, optGc;
// Strings no literal can denote.
static const std::vector<string> RAW = {string("\0", 1), string("a\0b", 3), string("\0\0\"", 3), "\x7f\x80\xff", "\r\n\t\b\f", "\xc3\xa9", string(300, '"'), string(5000, '\\'), string(100, '\n')};
static TINY_FOREIGN_FUNCTION(fRaw) { const string &s = RAW[(size_t)Tiny_ToInt(args[0])]; return Tiny_NewStringCopy(thread, s.c_str(), s.size()); }
static const string DECL = "struct In { q: int w: str } struct Deep { i: In b: bool } use array(\"int\") as ai\nfunc nat_to_json(n: nat): str { return strcat(\"nat\", int_to_str(natid(n))) }\nfunc ai_to_json(l: ai): str { r := \"[\" for i := 0; i < ai_len(l); i += 1 { if i > 0 { r = strcat(r, \",\") } r = strcat(r, int_to_str(ai_get(l, i))) } return strcat(r, \"]\") }\nfunc any_to_json(a: any): str { return if a == null \"null\" else \"any\" }\n";
struct Ty { string name; std::vector<string> vals; };
static const std::vector<Ty> T = {{"int", {"0", "-1", "ti(9223372036854775807)"}}, {"float", {"1.5", "tf(-0.25)", "123456.0"}}, {"bool", {"true", "tb(false)"}}, {"str", {"\"s\"", "hs(\"q\\\"\", 1)", "\"\""}}, {"In", {"new In{1, \"x\"}", "new In{-5, \"\\\\\"}"}}, {"Deep", {"new Deep{new In{2, \"y\"}, false}"}},
    {"nat", {"mknat()"}}, {"ai", {"ai()", "ai(1, 2, 3)"}}, {"any", {"ta(5)", "ta(null)"}}};
static const int NT = (int)T.size();
static const std::vector<string> NAMES = {"a", "bb", "c3", "long_name_with_underscores", "If", "zero"};
static string fields(uint64_t i, int n) {
    mc::Digits d(i);
    string s = "struct J { ", v = "new J{", w = v;
    for (int k = 0; k < n; ++k) {
        const Ty &t = T[d(NT)];
        s += NAMES[(k * 5 + n) % 6] + ": " + t.name + " ";
        v += (k ? ", " : "") + t.vals[k % t.vals.size()];
        w += (k ? ", " : "") + t.vals[(k + 1 + n) % t.vals.size()];
    }
    int form = (int)d(3);
    s += "}\n";
    if (form == 0) return DECL + s + "use json(\"J\")\nos(J_to_json(" + v + "})) j := " + w + "} r := J_to_json(j) os(r) oi(strlen(r))";
    if (form == 1) return DECL + "use json(\"J\") func show(j: J) { k := 1 os(J_to_json(j)) oi(k) }\n" + s + "show(" + v + "}) show(" + w + "})";
    return DECL + s + "struct Outer { x: J y: J } use json(\"Outer\") j := " + w + "} os(Outer_to_json(new Outer{j, j})) os(J_to_json(j)) os(Outer_to_json(new Outer{" + v + "}, j}))";
}
static std::vector<string> strs() {
    std::vector<string> v;
    for (int c = 1; c < 256; ++c) { if (c == '"' || c == '\\') continue; v.push_back(string(1, (char)c)); }
    v.push_back("\""); v.push_back("\\"); v.push_back("\\\""); v.push_back("\"\\"); v.push_back("{\"a\":1}"); v.push_back("%s%d%n"); v.push_back("\\u0041"); v.push_back("//x"); v.push_back("\n"); v.push_back("a\nb\nc");
    return v;
}
static const std::vector<string> STR = strs();
static const std::vector<string> INTS = {"0", "1", "-1", "9223372036854775807", "-9223372036854775807", "-9223372036854775807 - 1", "2147483647", "2147483648", "-2147483649", "4294967296", "100", "1000000", "10"};
static const std::vector<string> FLOATS = {"0.0", "1.0", "-1.0", "0.5", "0.1", "1.25", "100000.0", "1000000.0", "123456.0", "1234567.0", "0.0001", "0.00001", "0.000012345", "99999.5", "1e", "3.0", "-0.0", "10000000000.0", "0.1 + 0.2", "1.0 / 3.0", "1.0 / 4.0"};
// Requests for types that refer to each other, in any order and compilation.
static const std::vector<string> STRUCTS = {"struct A { b: B x: int }", "struct B { c: C s: str }", "struct C { n: int }", "struct D { b: B c: C a: A }", "struct R { v: int r: R }", "struct M { n: N } struct N { k: int m: M }"};
static const std::vector<string> REQ = {"use json(\"A\")", "use json(\"B\")", "use json(\"C\")", "use json(\"D\")", "func B_to_json(b: B): str { return strcat(\"B\", b.s) }", "func C_to_json(c: C): str { return \"c\" }", "use json(\"R\")", "use json(\"N\")", "use json(\"nosuch\")"};
static const std::vector<string> SHOW = {"os(A_to_json(@a))", "os(B_to_json(@a.b))", "os(C_to_json(@a.b.c))", "os(D_to_json(new D{@a.b, new C{7}, @a}))", "os(B_to_json(new B{new C{1}, \"z\"}))", "os(C_to_json(new C{2}))", "", "", "os(\"?\")"};
static void requests(uint64_t i, int n) {
    mc::Digits d(i);
    int split = (int)d(1u << n), style = (int)d(2), defs = (int)d(3);
    std::vector<string> u{""};
    string all;
    for (auto &s : STRUCTS) all += s + "\n";
    if (defs == 0) u.back() += all;
    string late;
    for (int k = 0; k < n; ++k) {
        int r = (int)d(REQ.size());
        if (split >> k & 1) u.push_back("");
        if (k == 0 && defs == 1) u.back() += all;
        string id(1, (char)('k' + k)), x = id + "a := new A{new B{new C{4}, \"b\"}, 6} " + sub(SHOW[r], "@", id) + "\n";
        u.back() += REQ[r] + "\n";
        if (style) u.back() += x; else late += x;
        if (k == 0 && defs == 2) u.back() += all;
    }
    u.back() += late;
    df::Duo D(opt);
    for (auto &x : u) if (!D.compile(x)) return;
    D.run();
}
static const std::vector<string> BAD = {"use json()", "use json(\"int\")", "use json(\"str\")", "use json(\"any\")", "use json(\"nat\")", "use json(\"ai\")", "use json(\"In\", \"Deep\")", "use json(\"\")", "use json(\"In?\")", "use json(\"in\")", "use json(\"In\") as x os(In_to_json(new In{1, \"s\"}))", "struct X { a: box } use json(\"X\")", "struct X { a: In? } use json(\"X\")", "struct X { i: int a: dict } use json(\"X\")",
    "struct X { a: Undefined } use json(\"X\")", "use json(\"X\")", "struct X { a: int } use json(\"X\") os(X_to_json(new In{1, \"s\"}))", "struct X { a: int } use json(\"X\") oi(X_to_json(new X{1}))", "struct X { a: int } use json(\"X\") os(X_to_json())", "struct X { a: int } use json(\"X\") os(X_to_json(5))", "struct X { a: int } use json(\"X\") use json(\"X\") os(X_to_json(new X{1}))", "struct X { y: Y } struct Y { d: dict } use json(\"X\")", "struct X { y: Y } struct Y { d: dict } func Y_to_json(y: Y): str { return \"y\" } use json(\"X\") os(X_to_json(new X{new Y{dict()}}))",
    "struct X { d: dict } func dict_to_json(d: dict): str { return int_to_str(cast(d[\"k\"], int)) } use json(\"X\") os(X_to_json(new X{dict(\"k\", 5)}))", "struct X { d: dict } use json(\"X\") func dict_to_json(d: dict): str { return \"late\" } os(X_to_json(new X{dict(\"k\", 5)}))", "struct X { f: delegate_int_int } use json(\"X\")", "struct X { a: int } use json(\"X\") struct Z { x: X } use json(\"Z\") os(Z_to_json(new Z{new X{3}}))", "struct Z { x: X } struct X { a: int } use json(\"Z\") z := new Z{new X{3}} z.x.a = 8 os(Z_to_json(z)) z.x = new X{9} os(Z_to_json(z))"};
static string counts(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(100), kind = (int)d(4), form = (int)d(2);
    const Ty &t = T[kind];
    string s = "struct J { ", v, c;
    for (int k = 0; k < n; ++k) { c += (k ? ", " : "") + t.vals[0]; s += "f" + I(k) + ": " + t.name + " "; v += "j.f" + I(k) + " = " + (kind ? t.vals[k % t.vals.size()] : I(k * 7)) + "\n"; }
    s += "}\n";
    return s + "use json(\"J\") func go(j: J) { " + v + " os(J_to_json(j)) }\nj := new J{" + c + "} " + (form ? "" : "os(J_to_json(j)) ") + "go(j)";
}
// Values which are the result of every kind of operation, rather than literals.
static const std::vector<std::vector<string>> PROD = {
    {"ti(5000000000) > 7", "ti(300) == 300", "ti(256) != 256", "tf(2.5) < 3.0", "hs(\"a\") == hs(\"a\")", "!tb(false)", "!(ti(65536) > 3)", "ti(256) > 1 && ti(512) != 2", "ti(1024) < 1 || ti(2048) >= 2048", "cast(ta(true), bool)", "gb", "if tb(true) tb(false) else tb(true)", "mknat() == mknat()", "ta(null) == ta(null)"},
    {"ti(5) - 10", "ti(4294967296) * 3", "ti(7) % 4", "ti(6) | 9", "ti(13) & 6", "ti(1) << 40", "-ti(9)", "strlen(hs(\"abc\"))", "cast(ta(77), int)", "gi", "'c'", "0xff + 1", "if ti(3) > 2 ti(5000000000) else 2", "ti(100) / 7"},
    {"tf(2.5) * 2", "ti(3) + 0.5", "1.5 - ti(4)", "-tf(0.125)", "tf(1.0) / 4.0", "cast(ta(2.5), float)", "gf", "tf(3.0)", "2 * tf(1.5)", "if tb(false) tf(1.0) else tf(-1.0)", "0.5 + ti(0)", "tf(0.0)", "tf(6.5) - 6", "tf(1.0) * 100"},
    {"strcat(hs(\"a\"), \"\\\"\")", "int_to_str(ti(42))", "hs(\"q\", 5000000000)", "substr(hs(\"abcdef\"), 1, 3)", "cast(ta(\"any\"), str)", "gs", "if tb(true) hs(\"t\") else \"f\"", "\"\"", "hs(\"\")", "strcat(\"x\", hs(\"y\"), \"z\")", "int_to_str(0 - 7)", "In_to_json(new In{1, \"w\"})", "raw(1)", "raw(2)"}};
static string producers(uint64_t i) {
    mc::Digits d(i);
    string b = PROD[0][d(14)], n = PROD[1][d(14)], f = PROD[2][(i / 7) % 14], t = PROD[3][(i / 5) % 14];
    int how = (int)d(4);
    string s = "struct In { q: int w: str } use json(\"In\") struct J { n: int b: bool s: str f: float c: bool m: int } use json(\"J\") gb := ti(70000) > 3 gi := ti(8) * 9 gf := tf(4.5) gs := hs(\"glob\")\n";
    string v = n + ", " + b + ", " + t + ", " + f + ", " + PROD[0][(i / 3) % 14] + ", " + PROD[1][(i / 11) % 14];
    if (how == 0) return s + "os(J_to_json(new J{" + v + "}))";
    if (how == 1) return s + "func mk(n: int, b: bool, s: str, f: float, c: bool, m: int): J { x := new J{1, true, \"\", 0.5, false, 2} x.n = n x.b = b x.s = s x.f = f x.c = c x.m = m return x } os(J_to_json(mk(" + v + ")))";
    if (how == 2) return s + "func fn(): int { return " + n + " } func fb(): bool { return " + b + " } func fs(): str { return " + t + " } func ff(): float { return " + f + " } j := new J{.s = fs(), .m = fn(), .c = fb(), .f = ff(), .n = fn(), .b = fb()} os(J_to_json(j))";
    return s + "j := new J{0, false, \"\", 0.0, true, 0} for k := 0; k < 2; k += 1 { lb := " + b + " ln := " + n + " j.b = lb j.c = !lb j.n = ln j.m += ln j.s = " + t + " j.f += " + f + " os(J_to_json(j)) }";
}
// ---- structs which refer to each other: edge i->j of the graph is a field of N<i> whose type is N<j>
static string graph(int n, const std::vector<std::vector<int>> &to, int order, const std::vector<int> &req, bool dag) {
    string s, v, u, p;
    for (int q = 0; q < n; ++q) {
        int i = order == 0 ? q : order == 1 ? n - 1 - q : (q * (n % 5 ? 5 : 3) + 3) % n;
        s += "struct N" + I(i) + " { ";
        for (int j : to[i]) s += "e" + I(j) + ": N" + I(j) + " ";
        s += "v" + I(i) + ": int }\n";
    }
    for (int r : req) u += "use json(\"N" + I(r) + "\") ";
    if (dag) {
        for (int i = n; i--;) { v += "o" + I(i) + " := new N" + I(i) + "{"; for (int j : to[i]) v += "o" + I(j) + ", "; v += I(i * 7 + 1) + "}\n"; }
        for (int r : req) p += "os(N" + I(r) + "_to_json(o" + I(r) + ")) ";
        // only the structs which are referred to have got a function
    } else p = "oi(1)";
    return order == 1 ? v + u + p + "\n" + s : s + u + v + p;
}
static string graphs3(uint64_t i) {            // all graphs of three structs, cyclic ones too, and of every one or two requests
    mc::Digits d(i);
    std::vector<std::vector<int>> to(3);
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (d(2)) to[a].push_back(b);
    int order = (int)d(2), r = (int)d(12);
    return graph(3, to, order, r < 3 ? std::vector<int>{r} : std::vector<int>{(r - 3) / 3, (r - 3) % 3}, false);
}
static string dags5(uint64_t i) {              // all acyclic graphs of five structs in which the edges go upwards
    mc::Digits d(i);
    std::vector<std::vector<int>> to(5);
    for (int a = 0; a < 5; ++a) for (int b = a + 1; b < 5; ++b) if (d(2)) to[a].push_back(b);
    int order = (int)d(3);
    return graph(5, to, order, i & 1 ? std::vector<int>{0} : std::vector<int>{1, 0}, true);
}
static string graphsN(uint64_t i) {
    mc::Digits d(i);
    int n = 2 + (int)d(13), kind = (int)d(6), order = (int)d(3);

    std::vector<std::vector<int>> to(n);
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b) {
            bool e = kind == 0 ? b == (a + 1) % n : kind == 1 ? true : kind == 2 ? b > a : kind == 3 ? b == a + 1 || b == a + 2 : kind == 4 ? a == 0 && b > 0 : b == a + 1 || (b && a == 0) || (b == n - 1 && a < b);
            if (kind == 2 && n > 9) e = b == a + 1 || b == a + 3;        // the text grows exponentially
            if (e) to[a].push_back(b);
        }
    return graph(n, to, order, {0}, kind > 1);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        opt.checkGlobals = false;
        opt.binder = [](Tiny_State *s) { df::bindStdImpl(s); df::bindExtraImpl(s); Tiny_BindFunction(s, "raw(int): str", fRaw); };
        opt.refBinder = [](df::RefEnv &R) { df::bindStdRef(R); df::bindExtraRef(R); df::RefEnv *P = &R; R.S.bind("raw(int): str", [P](std::vector<ref::Val> &a) { return P->str(RAW[(size_t)a[0].i]); }); };
        optGc = opt;
        optGc.gc = 0;
        bool th = mc::thorough;
        static string fam[] = {"fields-0", "fields-1", "fields-2", "fields-3", "fields-4", "fields-5"};
        for (int n = 0; n <= (th ? 5 : 4); ++n)
            mc::family(fam[n].c_str(), mc::power(NT, n) * 3, [n](uint64_t i) { df::compare(fields(i, n), n < 2 ? optGc : opt); }, [n](uint64_t i) { return fields(i, n); });
        uint64_t ns = STR.size();
        mc::family("strings", ns * ns + ns + RAW.size() * RAW.size(), [ns](uint64_t i) {
            string a, b;
            if (i < ns) { a = lit(STR[i]); b = lit("x" + STR[i] + STR[i] + "y"); }
            else if (i < ns + ns * ns) { i -= ns; auto plain = [](const string &s) { return s.size() == 1 && s[0] >= 'A' && s[0] != '\\'; }; if (!mc::thorough && (plain(STR[i % ns]) || plain(STR[i / ns]))) return; a = lit(STR[i / ns] + STR[i % ns]); b = "hs(" + lit(STR[i % ns]) + ")"; }
            else { i -= ns + ns * ns; a = "raw(" + I(i % RAW.size()) + ")"; b = "strcat(raw(" + I(i / RAW.size()) + "), \"t\")"; }
            df::compare("struct J { a: str b: str } use json(\"J\") j := new J{" + a + ", " + b + "} r := J_to_json(j) oi(strlen(r)) os(r)", opt);
        });
        mc::family("lengths", 1200, [](uint64_t i) { df::compare("struct J { a: str } use json(\"J\") os(J_to_json(new J{" + lit(string(i, 'a')) + "})) os(J_to_json(new J{" + lit(string(i / 2, '"')) + "})) os(J_to_json(new J{" + lit(string(i / 3, '\n')) + "}))", i < 40 ? optGc : opt); });
        mc::family("numbers", INTS.size() * FLOATS.size() * 2, [](uint64_t i) {
            string f = FLOATS[i / 2 % FLOATS.size()], n = INTS[i / 2 / FLOATS.size()];
            df::compare("struct J { i: int f: float b: bool } use json(\"J\") os(J_to_json(new J{" + n + ", " + f + ", " + (i % 2 ? "true" : "false") + "}))", opt);
        });
        mc::family("producers", 14 * 14 * 4, [](uint64_t i) { df::compare(producers(i), i % 5 ? opt : optGc); }, producers);
        mc::family("bad", BAD.size() * BAD.size(), [](uint64_t i) {
            df::Duo D(opt);
            if (D.compile(DECL + BAD[i % BAD.size()])) { D.run(); return; }
            if (D.compile(DECL + "os(In_to_json(new In{1, \"\"}))")) D.run();
            df::compare(DECL + BAD[i / BAD.size()], optGc);
        });
        mc::family("requests-2", mc::power(REQ.size(), 2) * 4 * 2 * 3, [](uint64_t i) { requests(i, 2); });
        mc::family("requests-3", mc::power(REQ.size(), 3) * 8 * 2 * 3, [](uint64_t i) { requests(i, 3); });
        if (th) mc::family("requests-4", mc::power(REQ.size(), 4) * 16 * 2 * 3, [](uint64_t i) { requests(i, 4); });
        mc::family("counts", 100 * 4 * 2, [](uint64_t i) {
            string s = counts(i);
            { df::Impl I(opt.binder); if (!I.compile(s)) { if (i % 100 > 0 && i % 100 < 60) mc::fail("rejected: %s\n%s", I.err.c_str(), df::clip(s).c_str()); mc::noteSkip(); return; } }
            df::compare(s, opt);
        }, [](uint64_t i) { return df::clip(counts(i), 500); });
        mc::family("depth", 40 * 2, [](uint64_t i) {
            int n = (int)(i % 40) + 1;
            string s, v = "1";
            for (int k = 0; k < n; ++k) { int j = i / 40 ? k : n - 1 - k; s += "struct N" + I(j) + " { a: int v: " + (j + 1 < n ? "N" + I(j + 1) : "int") + " z: str }\n"; }
            for (int k = n; k--;) v = "new N" + I(k) + "{" + I(k) + ", " + v + ", \"z" + I(k) + "\"}";
            df::compare(s + "use json(\"N0\") os(N0_to_json(" + v + "))", i < 10 ? optGc : opt);
        });
        mc::family("graphs-3", 512 * 2 * 12, [](uint64_t i) { df::Opt o = opt; o.mustAccept = true; df::compare(graphs3(i), o); }, graphs3);
        mc::family("dags-5", 1024 * 3, [](uint64_t i) { df::Opt o = i % 16 ? opt : optGc; o.mustAccept = true; df::compare(dags5(i), o); }, dags5);
        mc::family("graphs-n", 13 * 6 * 3, [](uint64_t i) { df::Opt o = opt; o.mustAccept = true; df::compare(graphsN(i), o); }, graphsN);
        // fields named like types, functions, words of the generated text and each other's fields
        static const std::vector<string> FN = {"A", "B", "C", "v", "str", "int", "strcat", "A_to_json", "B_to_json", "int_to_json", "json", "to_json", "D", "void", "f"};
        mc::family("field-names", mc::power(FN.size(), 3) * 2, [](uint64_t i) {
            bool back = i % 2;
            i /= 2;
            size_t z = FN.size(), a = i % z, b = i / z % z, c = i / z / z;
            if (a == b) return;
            df::Opt o = opt;
            o.mustAccept = true;
            string sa = "struct A { " + FN[a] + ": B " + FN[b] + ": C }\n", sb = "struct B { " + FN[c] + ": C d: D }\n", sc = "struct C { " + FN[(a + c) % z] + ": int " + FN[(a + c + 1 + b % 3) % z] + ": str }\nstruct D { " + FN[b] + ": bool }\n";
            df::compare((back ? sc + sb + sa : sa + sb + sc) + "use json(\"A\") c := new C{7, \"t\"} b := new B{c, new D{true}} a := new A{b, new C{-1, \"A\"}} os(A_to_json(a)) os(B_to_json(a." + FN[a] + ")) os(C_to_json(a." + FN[b] + "))", o);
        }, [](uint64_t i) { size_t z = FN.size(); i /= 2; return FN[i % z] + ", " + FN[i / z % z] + ", " + FN[i / z / z]; });
        mc::family("names", 700 * 2, [](uint64_t i) {
            string n(i / 2 + 1, 'n'), s = i % 2 ? "struct " + n + " { a: int } struct O { x: " + n + " } use json(\"O\") os(O_to_json(new O{new " + n + "{5}}))" : "struct O { " + n + ": int m: str } use json(\"O\") os(O_to_json(new O{5, \"s\"}))";
            df::compare(s, opt);
        });
    });
}
