// P26: delegates call the function they were created from.
#include "stdref.hpp"
#include "gen.hpp"
#include "corpus.hpp"
using namespace gen;
static df::Opt opt, optGc;
struct Ty { string name, part; std::vector<string> vals; };
static const std::vector<Ty> T = {{"int", "int", {"ti(7)", "-3"}}, {"float", "float", {"tf(1.5)", "0.0"}}, {"bool", "bool", {"tb(true)", "false"}}, {"str", "str", {"hs(\"a\", 1)", "\"lit\""}}, {"any", "any", {"ta(5)", "ta(\"x\")"}},
    {"S", "S", {"new S{4}", "gs"}}, {"nat", "nat", {"gn", "mknat()"}}, {"ai", "ai", {"ai(1, 2)", "gl"}}, {"S?", "S_", {"gs", "nul()"}}};
static const int NT = (int)T.size();
static const string DECL = "struct S { v: int } use array(\"int\") as ai func nul(): S? { }\ngs := new S{9} gn := mknat() gl := ai(8, 9)\n";
static const string LATER = "struct Q { a: int }\n";
// A function f with these parameter types; it reports them and returns value r of its type.
static string func(const string &name, const std::vector<int> &ps, int ret, int rv) {
    string s = "func " + name + "(", args;
    for (size_t k = 0; k < ps.size(); ++k) { s += (k ? ", p" : "p") + I((int)k) + ": " + T[ps[k]].name; args += ", p" + I((int)k); }
    s += ")" + (ret < NT ? ": " + T[ret].name : "") + " { dump(\"" + name + "\"" + args + ") ";
    if (ret < NT) {
        int same = -1;
        for (size_t k = 0; k < ps.size(); ++k) if (ps[k] == ret && (int)(k % 2) == rv) same = (int)k;      // one of the arguments if possible
        s += "return " + (same >= 0 ? "p" + I(same) : T[ret].vals[rv]) + " ";
    }
    return s + "}\n";
}
static string typeName(const std::vector<int> &ps, int ret) {
    string s = "delegate_";
    for (size_t k = 0; k < ps.size(); ++k) s += (k ? "_" : "") + T[ps[k]].part;
    return s + "_" + (ret < NT ? T[ret].part : "void");
}
static string args(const std::vector<int> &ps, int which) { string s; for (size_t k = 0; k < ps.size(); ++k) s += ", " + T[ps[k]].vals[(which + k) % 2]; return s; }
static string signature(uint64_t i, int n) {
    mc::Digits d(i);
    int ret = (int)d(NT + 1), rv = (int)d(2), form = (int)d(6);
    std::vector<int> ps;
    for (int k = 0; k < n; ++k) ps.push_back((int)d(NT));
    string D = typeName(ps, ret), f = func("target", ps, ret, rv), u = "use delegate(\"target\") as mk\n";
    string call = D + "_call(d" + args(ps, 0) + ")", call2 = D + "_call(mk()" + args(ps, 1) + ")";
    string out = ret < NT ? "r: " + T[ret].name + " = " + call + " dump(r) dump(" + call2 + ")\n" : call + " " + call2 + "\n";
    if (form == 0) return DECL + f + u + "d := mk() " + out;
    if (form == 1) return DECL + u + "func main() { d := mk() " + out + " }\n" + f + "main()";
    if (form == 2) return DECL + u + f + "func pass(d: " + D + ", n: int): " + D + " { if n == 0 { " + out + " return d } return pass(d, n - 1) }\n d := pass(mk(), 3) " + out;
    if (form == 3) return DECL + f + "use delegate(\"target\") as mk use delegate(\"target\") as mk2 struct H { d: " + D + " e: " + D + "? } h := new H{mk(), mk2()} d := h.d " + out + " h.d = mk2() d = h.d " + out + " out(mk() == mk2(), d == h.d)";
    if (form == 4) return DECL + f + u + "use array(\"" + D + "\") as ds l := ds(mk()) ds_push(l, mk()) d := l[1] " + out + " x := dict(\"d\", cast(mk(), any)) d = cast(x[\"d\"], " + D + ") " + out;
    return DECL + f + u + (n ? "d := mk() " + (ret < NT ? "dump(" : string("")) + "d->" + D + "_call(" + args(ps, 0).substr(2) + ")" + (ret < NT ? ")" : "") : "");
}
// One argument of another type, or one too many or too few, or a delegate with another signature.
static string wrong(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(3), ret = (int)d(NT + 1);
    std::vector<int> ps;
    for (int k = 0; k < 2; ++k) ps.push_back((int)d(NT));
    ps.resize(n);
    int kind = (int)d(5), at = (int)d(2), ty = (int)d(NT);
    string D = typeName(ps, ret), base = DECL + func("target", ps, ret, 0) + "use delegate(\"target\") as mk d := mk()\n";
    if (kind == 0) { if (at >= n) return ""; string a; for (int k = 0; k < n; ++k) a += ", " + T[k == at ? ty : ps[k]].vals[0]; return base + D + "_call(d" + a + ")"; }
    if (kind == 1) return base + D + "_call(d" + args(ps, 0) + ", " + T[ty].vals[0] + ")";
    if (kind == 2) { if (!n || at) return ""; std::vector<int> q = ps; q.pop_back(); return base + D + "_call(d" + args(q, 0) + ")"; }
    if (kind == 3) return base + (at ? "r: " + T[ty].name + " = " : "r := ") + D + "_call(d" + args(ps, 0) + ")";
    // another function's delegate
    std::vector<int> q = ps;
    int r2 = ret;
    if (at && n) q[0] = ty; else r2 = ty;
    return base + func("other", q, r2, 0) + "use delegate(\"other\") as mk2 e: " + D + " = mk2() " + D + "_call(e" + args(ps, 0) + ") " + typeName(q, r2) + "_call(d" + args(q, 0) + ")";
}
// ---------------------------------------------------------------- several delegates
static const std::vector<string> OPS = [] {
    std::vector<string> o;
    for (string v : {"a", "b", "c"}) { for (string f : {"F", "G", "H"}) o.push_back(v + " = mk" + f + "()"); o.push_back("oi(delegate_int_int_call(" + v + ", 5))"); }
    for (string x : {"a = b", "b = c", "c = a", "w.d = a", "b = w.d", "l[0] = c", "a = l[0]", "c = cast(k, delegate_int_int)", "k = cast(b, any)", "oi(call_function(k, 2))->nop()", "oi(twice(a, b))", "oi(delegate_int_int_call(l[0], delegate_int_int_call(w.d, 3)))"}) o.push_back(x);
    for (auto &x : o) if (x.find("call_function") != string::npos) x = "oi(cast(call_function(k, 2), int))";
    return o;
}();
static df::Machine mach[2];
static bool several(const std::vector<int> &q, bool local) {
    df::Machine &m = mach[local];
    if (!m.text) {
        m.opt = opt;
        m.text = [local] {
            string decl = "func F(x: int): int { oi(x) return x + 1 } func G(x: int): int { oi(-x) return x * 2 } func H(x: int): int { if x <= 0 { return 0 } return delegate_int_int_call(mkF(), x - 1) + delegate_int_int_call(mkH(), x - 2) }\n"
                "use delegate(\"F\") as mkF use delegate(\"G\") as mkG use delegate(\"H\") as mkH use array(\"delegate_int_int\") as ds struct W { d: delegate_int_int }\n"
                "func twice(f: delegate_int_int, g: delegate_int_int): int { return delegate_int_int_call(f, delegate_int_int_call(g, 4)) }\n";
            return df::machine(decl, "a := mkF() b := mkG() c := mkH() w := new W{mkG()} l := ds(mkF()) k := cast(mkH(), any)", OPS, "oi(delegate_int_int_call(a, 1) + delegate_int_int_call(b, 10) + delegate_int_int_call(c, 2))", "oi(delegate_int_int_call(w.d, 0) + delegate_int_int_call(l[0], 0))", local);
        };
    }
    return m.run(q);
}
// Units in any order and grouping: functions, delegates for them, uses.
static const std::vector<string> UNIT = {
    "func u@a(x: int): int { oi(x) return x + 1 } use delegate(\"u@a\") as m@a\n", "func u@b(x: int, s: str): str { oi(x) os(s) return s } use delegate(\"u@b\") as m@b\n", "func u@c() { os(\"c\") } use delegate(\"u@c\") as m@c\n", "use delegate(\"ti\") as m@d\n", "use delegate(\"oi\") as m@e\n",
    "func pad@a() { } func pad@b(x: int): int { return x } padg@ := pad@b(3)\n", "use array(\"int\") as arr@ use delegate(\"arr@_len\") as m@f\n", "struct R@ { v: int } func u@g(r: R@): R@ { r.v += 1 return r } use delegate(\"u@g\") as m@g\n", "func u@h(x: int): int { return delegate_int_int_call(v@h, x) * 2 } use delegate(\"u@h\") as m@h\n"};
static const std::vector<string> CALL = {
    "v@ := m@a() oi(delegate_int_int_call(v@, 3))", "v@ := m@b() os(delegate_int_str_str_call(v@, 4, hs(\"q\", 1)))", "v@ := m@c() delegate__void_call(v@)", "v@ := m@d() oi(delegate_int_int_call(v@, 6))", "v@ := m@e() delegate_int_void_call(v@, 8)",
    "oi(padg@ + pad@b(4))", "v@ := m@f() oi(delegate_arr@_int_call(v@, arr@(1, 2, 3)))", "v@ := m@g() oi(delegate_R@_R@_call(v@, new R@{6}).v)", "oi(1)"};
static void units(uint64_t i, int n) {
    mc::Digits d(i);
    int split = (int)d(1u << (n - 1)), style = (int)d(4);
    std::vector<int> q;
    for (int k = 0; k < n; ++k) q.push_back((int)d(UNIT.size() - 1));
    std::vector<string> u{""};
    string late;
    for (int k = 0; k < n; ++k) {
        if (k && (split >> (k - 1) & 1)) u.push_back("");
        string id(1, (char)('k' + k)), c = sub(CALL[q[k]], "@", id) + "\n";
        u.back() += sub(UNIT[q[k]], "@", id);
        if (style == 1) u.back() += c; else if (style == 2) late = c + late; else late += c;
    }
    if (style == 3) u.push_back("");
    u.back() += late;
    df::Duo D(opt);
    size_t at = 0;
    for (auto &x : u) {
        if (at++ == 1) D.compile("func fails(x: int): int { return x } use delegate(\"fails\") as mfails nosuch(1)");       // must leave no trace
        if (!D.compile(x)) return;
    }
    D.run();
}
// When a program is rejected which uses a delegate with a long signature, then it is because there can be no such delegate.
static void unusable(const string &src, size_t use) {
    size_t e = src.find(" as ", use) + 4;
    while (e < src.size() && isalnum((unsigned char)src[e])) ++e;
    df::Impl I(opt.binder);
    if (I.compile(src.substr(0, e))) mc::fail("the delegate is accepted but cannot be called by its name\n%s", df::clip(src).c_str());
}
// Every number of parameters, and every length of the names.
static void counts(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(130), kind = (int)d(6), form = (int)d(2);
    std::vector<string> t = {"int", "str", "any", "S", "ai", ""};
    string ps, as, D = "delegate_", seen;
    for (int k = 0; k < n; ++k) {
        string ty = kind < 5 ? t[kind] : t[k % 5];
        ps += (k ? ", " : "") + ("p" + I(k)) + ": " + ty; D += (k ? "_" : "") + ty;
        as += ", " + (ty == "int" ? "ti(" + I(k) + ")" : ty == "str" ? "hs(\"" + I(k) + "\")" : ty == "any" ? "ta(" + I(k) + ")" : ty == "S" ? "new S{" + I(k) + "}" : "ai(" + I(k) + ")");
        seen += (k % 40 ? ", p" : ") dump(p") + I(k);
    }
    D += n && form ? "_" + (kind < 5 ? t[kind] : t[0]) : "_void";
    string f = "func target(" + ps + ")" + (n && form ? ": " + (kind < 5 ? t[kind] : t[0]) : "") + " { dump(0" + seen + ")" + (n && form ? " return p" + I(kind < 5 ? n - 1 : (n - 1) / 5 * 5) : "") + " }\n";
    string src = DECL + f + "use delegate(\"target\") as mk\n" + (n && form ? "dump(" : "") + D + "_call(mk()" + as + ")" + (n && form ? ")" : "");
    { df::Impl I(opt.binder); if (!I.compile(src)) { if (n < 20) mc::fail("rejected: %s\n%s", I.err.c_str(), df::clip(src).c_str()); unusable(src, src.rfind("use delegate")); mc::noteSkip(); return; } }
    df::compare(src, opt);
}
static void names(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(560) + 1, kind = (int)d(4);
    string s(n, 'n'), src;
    if (kind == 0) src = "func " + s + "(x: int): int { oi(x) return x + 1 } use delegate(\"" + s + "\") as mk oi(delegate_int_int_call(mk(), 3))";
    if (kind == 1) src = "func f(x: int): int { oi(x) return x + 1 } use delegate(\"f\") as " + s + " oi(delegate_int_int_call(" + s + "(), 3))";
    if (kind == 2) src = "struct " + s + " { v: int } func f(x: " + s + "): int { oi(x.v) return x.v + 1 } use delegate(\"f\") as mk oi(delegate_" + s + "_int_call(mk(), new " + s + "{3}))";
    if (kind == 3) src = "struct " + s + " { v: int } func f(x: " + s + "): " + s + " { oi(x.v) return x } use delegate(\"f\") as mk oi(delegate_" + s + "_" + s + "_call(mk(), new " + s + "{3}).v)";
    { df::Impl I(opt.binder); if (!I.compile(src)) { if (n < 60) mc::fail("rejected: %s\n%s", I.err.c_str(), df::clip(src).c_str()); unusable(src, src.rfind("use delegate")); mc::noteSkip(); return; } }
    df::compare(src, opt);
}
// Functions made known by the host, and contexts of the call.
static const std::vector<string> SNIP = {
    "use delegate(\"ti\") as m d := m() oi(delegate_int_int_call(d, 4))", "use delegate(\"oi\") as m delegate_int_void_call(m(), 4)", "use delegate(\"hs\") as m os(delegate__str_call(m()))", "use delegate(\"mknat\") as m oi(natid(delegate__nat_call(m())))", "use delegate(\"natid\") as m oi(delegate_nat_int_call(m(), mknat()))",
    "use delegate(\"ai_push\") as m l := ai() delegate_ai_int_void_call(m(), l, 5) dump(l)", "use delegate(\"strlen\") as m oi(delegate_str_int_call(m(), \"four\"))", "use delegate(\"nosuch\") as m", "use delegate(\"S\") as m", "use delegate() as m", "use delegate(\"ti\")", "use delegate(\"ti\", \"tb\") as m", "use delegate(\"delegate_int_int_call\") as m",
    "use delegate(\"f\") as m use delegate(\"m\") as mm func f(x: int): int { return x } oi(delegate_int_int_call(delegate__delegate_int_int_call(mm()), 3))", "func f(x: int): int { return x + 1 } use delegate(\"f\") as m use delegate(\"delegate_int_int_call\") as c oi(delegate_delegate_int_int_int_call(c(), m(), 5))",
    "func f(n: int): int { if n <= 1 { return 1 } return n * delegate_int_int_call(m(), n - 1) } use delegate(\"f\") as m oi(delegate_int_int_call(m(), 6))", "func f(b: bool): bool { ob(b) return b } use delegate(\"f\") as m d := m() if delegate_bool_bool_call(d, true) && delegate_bool_bool_call(d, false) || delegate_bool_bool_call(d, true) { oi(1) } while delegate_bool_bool_call(d, tb(false)) { } oi(if delegate_bool_bool_call(d, true) 1 else 2)",
    "func f(a: int, b: int, c: int): int { x := a y := b x += c return x * 100 + y } use delegate(\"f\") as m d := m() l := 5 oi(delegate_int_int_int_int_call(d, delegate_int_int_int_int_call(d, 1, 2, 3), l, delegate_int_int_int_int_call(d, l, l + 1, l + 2)))", "func loc() { a := 1 b := m() c := 3 oi(delegate_int_int_call(b, a + c)) oi(a) oi(c) } func f(x: int): int { q := x r := q * 2 return r } use delegate(\"f\") as m loc()",
    "func f() { } func g() { os(\"g\") } use delegate(\"f\") as a use delegate(\"g\") as b d := a() d = b() delegate__void_call(d) delegate__void_call(a())", "func f(): S { return new S{3} } use delegate(\"f\") as m delegate__S_call(m()).v->oi() delegate__S_call(m())", "func f(): int { } use delegate(\"f\") as m dump(delegate__int_call(m()))", "func f(s: S?): S? { return s } use delegate(\"f\") as m dump(delegate_S__S__call(m(), gs), delegate_S__S__call(m(), nul()))",
    "struct a_b { x: int } struct b_c { y: int } struct a { p: int } func f(q: a_b, r: int) { oi(q.x) } func g(q: a, r: b_c) { oi(q.p + r.y) } use delegate(\"f\") as m use delegate(\"g\") as n delegate_a_b_int_void_call(m(), new a_b{1}, 2) delegate_a_b_c_void_call(n(), new a{1}, new b_c{2})", "struct a_b { x: int } struct b_c { y: int } struct a { p: int } struct c { z: int } func f(q: a_b, r: c) { oi(q.x) } func g(q: a, r: b_c) { oi(q.p + r.y) } use delegate(\"f\") as m use delegate(\"g\") as n delegate_a_b_c_void_call(m(), new a_b{1}, new c{2})",
    "func f(x: int): int { return x } use delegate(\"f\") as m d: delegate_int_int? = m() d = null", "func f(x: int): int { return x } use delegate(\"f\") as m d := m() d = null", "func f(x: int): int { return x } use delegate(\"f\") as m d: int = m()", "func f(x: int): int { return x } use delegate(\"f\") as m d: delegate_int_int = 1", "func f(x: int): int { return x } use delegate(\"f\") as m d: any = m() oi(delegate_int_int_call(d, 1))",
    "func f(x: int): int { return x } use delegate(\"f\") as m d := cast(cast(m(), any), delegate_int_int) oi(delegate_int_int_call(d, 1))", "use delegate(\"f\") as m oi(delegate_int_int_call(m(), 2)) func f(x: int): int { return x + 7 }", "func f(x: Later): Later { return x } use delegate(\"f\") as m struct Later { v: int } oi(delegate_Later_Later_call(m(), new Later{4}).v)", "func f(a: any, b: any): any { return b } use delegate(\"f\") as m dump(delegate_any_any_any_call(m(), ta(1), cast(\"s\", any)))",
};
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        opt.checkGlobals = false;
        df::arrayNames = {"ai"};
        optGc = opt;
        optGc.gc = 0;
        bool th = mc::thorough;
        for (int n = 0; n <= (th ? 4 : 3); ++n) {
            uint64_t c = mc::power(NT, n) * (NT + 1) * 2 * 6;
            static string fam[] = {"parameters-0", "parameters-1", "parameters-2", "parameters-3", "parameters-4"};
            if (n == 4 || (n == 3 && !th)) c = mc::power(NT, n) * (NT + 1);
            mc::family(fam[n].c_str(), c, [n](uint64_t i) { df::compare(signature(i, n), n < 2 ? optGc : opt); }, [n](uint64_t i) { return signature(i, n); });
        }
        mc::family("wrong", (uint64_t)3 * (NT + 1) * NT * NT * 5 * 2 * NT, [](uint64_t i) { uint64_t p = i / 3 / (NT + 1) % NT, q = i / 3 / (NT + 1) / NT % NT; if (!mc::thorough && (i % 3 < 2 ? q > 0 : p > 4 || (q > 4 && q != p))) return; string s = wrong(i); if (!s.empty()) df::compare(s, opt); }, wrong);
        mc::family("counts", 130 * 6 * 2, counts);
        mc::family("names", 560 * 4, names);
        mc::family("snippets", SNIP.size() * 2, [](uint64_t i) { df::compare(DECL + SNIP[i / 2], i % 2 ? optGc : opt); }, [](uint64_t i) { return SNIP[i / 2]; });
        mc::family("snippet-pairs", SNIP.size() * SNIP.size(), [](uint64_t i) {
            df::Duo D(opt);
            auto ren = [](string s, const string &k) { for (string n : {"f", "g", "a", "b", "m", "d", "l", "mm", "loc", "c", "n", "Later", "a_b", "b_c", "x", "y"}) { string o; for (auto &t : corpus::tokens(s)) o += (t == n ? n + k : t == "\"" + n + "\"" ? "\"" + n + k + "\"" : t) + " "; s = o; } return s; };
            string p = SNIP[i % SNIP.size()], q = SNIP[i / SNIP.size()];
            if (p.find("struct") != string::npos || q.find("struct") != string::npos) return;
            if (D.compile(DECL + ren(p, "1")) && D.compile(ren(q, "2"))) D.run();
        });
        int n = th ? 4 : 3;
        mc::family("several", mc::power(OPS.size(), n) * 2, [n](uint64_t i) {
            bool local = i / mc::power(OPS.size(), n);
            i %= mc::power(OPS.size(), n);
            std::vector<int> q;
            for (int k = 0; k < n; ++k) { q.push_back((int)(i % OPS.size())); i /= OPS.size(); }
            several(q, local);
        });
        uint64_t u = UNIT.size() - 1;
        mc::family("units-2", u * u * 2 * 4, [](uint64_t i) { units(i, 2); });
        mc::family("units-3", u * u * u * 4 * 4, [](uint64_t i) { units(i, 3); });
        if (th) mc::family("units-4", u * u * u * u * 8 * 4, [](uint64_t i) { units(i, 4); });
    });
}
