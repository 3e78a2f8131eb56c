// P24: generic arrays are typed, independent views of the array.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
static df::Opt opt;
struct El { string type, name; std::vector<string> vals; };
// Element types; the last ones are made from others.
static const std::vector<El> E = {
    {"int", "ai", {"ti(7)", "0", "-3"}},
    {"float", "af", {"tf(1.5)", "0.0", "-2.25"}},
    {"bool", "ab", {"tb(true)", "false", "true"}},
    {"str", "astr", {"hs(\"a\", 1)", "\"\"", "\"const\""}},
    {"any", "aa", {"ta(5)", "ta(\"t\")", "ta(null)"}},
    {"S", "at", {"new S{1}", "gs", "mks(3)"}},
    {"nat", "an", {"gn", "mknat()", "gn"}},
    {"dict", "ad", {"dict(\"k\", 1)", "gd", "dict()"}},
    {"ai", "aai", {"ai(1, 2)", "gai", "ai()"}},
    {"T", "au", {"new T{ai(4), gs}", "gt", "gt"}},
    {"aai", "aaai", {"aai(ai(1), gai)", "gaai", "aai()"}},
};
static const int NE = (int)E.size();
static const string DECL = "struct S { v: int } struct T { l: ai s: S } func mks(v: int): S { return new S{v} }\n";
static string use(int e) { return "use array(\"" + E[e].type + "\") as " + E[e].name + "\n"; }
static string useAll(bool back = false) {
    string s;
    // An array of arrays needs the inner one first.
    static const std::vector<int> BACK = {9, 7, 6, 5, 4, 3, 2, 1, 0, 8, 10};
    for (int e = 0; e < NE; ++e) s += use(back ? BACK[e] : e);
    return s;
}
static const string GLOBALS = "gs := new S{9} gn := mknat() gd := dict(\"g\", 2) gai := ai(8, 9) gt := new T{gai, gs} gaai := aai(gai, ai(5))\n";
static const std::vector<string> OTHER = {"null", "ti(1)", "tf(2.5)", "tb(true)", "ts(\"s\")", "ta(1)", "gs", "gn", "gd", "gai", "gt", "gaai", "x", "nul()", "(1 + 1)"};
// @ array, V the value, e a fitting element
static const std::vector<string> TAKES = {"@_push(x, V)", "@_set(x, 0, V)", "x[0] = V", "@_insert(x, 0, V)", "@_resize_fill(x, 5, V)", "@_push(V, e)", "@_set(V, 0, e)", "V[0] = e", "@_insert(V, 0, e)", "@_resize_fill(V, 5, e)",
    "@_resize(V, 1)", "@_clear(V)", "@_remove(V, 0)", "@_sort(V)", "dump(@_get(V, 0))", "dump(V[0])", "dump(@_pop(V))", "dump(@_shift(V))", "dump(@_len(V))", "x->@_push(V)", "dump(@(V))", "dump(@(e, V))",
    "@_resize(x, V)", "@_remove(x, V)", "dump(@_get(x, V))", "dump(x[V])", "@_set(x, V, e)", "x[V] = e", "@_insert(x, V, e)", "@_resize_fill(x, V, e)", "@_push(x, e, V)", "@_len(x, V)", "@_get(x, 0, V)"};
static const std::vector<string> GIVES = {"@_get(x, 0)", "x[0]", "@_pop(x)", "@_shift(x)", "@_len(x)", "@(e)", "x", "@_push(x, e)", "@_clear(x)", "@_set(x, 0, e)", "@_remove(x, 0)", "@_resize(x, 1)", "@_insert(x, 0, e)", "@_resize_fill(x, 4, e)", "@_get_index(x, 0)", "@_set_index(x, 0, e)", "@_sort(x)"};
static const std::vector<string> TYPES = {"int", "float", "bool", "str", "any", "S", "nat", "dict", "ai", "T", "aai", "af", "ab", "astr", "aa", "at", "an", "ad", "au", "aaai", "S?", "void", "array_any"};
static string fill(string t, int e, const string &v = "") { return sub(sub(sub(t, "@", E[e].name), "V", v), "(e", "(" + E[e].vals[0]); }
static string stmt(const string &t, int e, const string &v) { return sub(sub(sub(sub(t, " e)", " #)"), "(e", "(#"), "= e", "= #"), "#", E[e].vals[0]).replace(0, 0, ""); }
static string takes(uint64_t i) {
    mc::Digits d(i);
    int e = (int)d(NE), t = (int)d(TAKES.size()), v = (int)d(OTHER.size());
    bool local = d(2), back = d(2);
    string x = sub(sub(stmt(sub(TAKES[t], "e, V", "e , V"), e, ""), "@", E[e].name), "V", OTHER[v]);
    x = sub(x, "(e ,", "(" + E[e].vals[0] + ",");
    x = sub(x, " e ,", " " + E[e].vals[0] + ",");
    x = "x := " + E[e].name + "(" + join(E[e].vals, ", ") + ") " + x + " dump(x)";
    return DECL + useAll(back) + "func nul(): S? { }\n" + GLOBALS + (local ? "func main() { " + x + " } main()" : x);
}
static string gives(uint64_t i) {
    mc::Digits d(i);
    int e = (int)d(NE), t = (int)d(GIVES.size()), ty = (int)d(TYPES.size());
    bool local = d(2), back = d(2);
    string x = sub(stmt(GIVES[t], e, ""), "@", E[e].name);
    x = "x := " + E[e].name + "(" + join(E[e].vals, ", ") + ") r: " + TYPES[ty] + " = " + x + " dump(r, x)";
    return DECL + useAll(back) + GLOBALS + (local ? "func main() { " + x + " } main()" : x);
}
// ---------------------------------------------------------------- behaviour
static std::vector<string> ops(int e, const string &x) {
    const El &l = E[e];
    string A = l.name, a = l.vals[0], b = l.vals[1], c = l.vals[2];
    std::vector<string> o = {A + "_push(" + x + ", " + a + ")", A + "_push(" + x + ", " + b + ")", x + "[0] = " + c, A + "_set(" + x + ", 1, " + b + ")", A + "_insert(" + x + ", 0, " + c + ")", "dump(" + A + "_pop(" + x + "))", "dump(" + A + "_shift(" + x + "))",
        A + "_remove(" + x + ", 0)", A + "_resize(" + x + ", 3)", A + "_resize_fill(" + x + ", 4, " + a + ")", A + "_clear(" + x + ")", x + " = " + A + "(" + a + ", " + b + ", " + c + ")", "dump(" + x + "[0], " + A + "_get(" + x + ", 1), " + A + "_len(" + x + "))", x + "[1] = " + x + "[0]"};
    if (e == 0) o.push_back(A + "_sort(" + x + ")");
    return o;
}
static const int NO = 14;
static std::vector<df::Machine> one, two;
static bool opsRun(int e, std::vector<int> q, bool gc) {
    if (one.empty()) one.resize(NE * 2);
    df::Machine &m = one[e * 2 + gc];
    if (!m.text) {
        m.opt = opt;
        if (gc) m.opt.gc = 0;
        m.text = [e] { return df::machine(DECL + useAll(), GLOBALS + "x := " + E[e].name + "(" + E[e].vals[0] + ")", ops(e, "x"), "dump(x)", "dump(gs, gai)", false); };
    }
    return m.run(q);
}
static bool pairRun(int p, std::vector<int> q) {
    if (two.empty()) two.resize(NE * NE);
    df::Machine &m = two[p];
    if (!m.text) {
        m.opt = opt;
        m.text = [p] {
            int e = p % NE, f = p / NE;
            auto o = ops(e, "x"), n = ops(f, "y");
            o.resize(NO); n.resize(NO);
            o.insert(o.end(), n.begin(), n.end());
            return df::machine(DECL + useAll(), GLOBALS + "x := " + E[e].name + "(" + E[e].vals[0] + ") y := " + E[f].name + "(" + E[f].vals[1] + ")", o, "dump(x, y)", "dump(gs, gai)", false);
        };
    }
    return m.run(q);
}
// ---------------------------------------------------------------- requests
struct Req { string type, name; };
static const std::vector<Req> REQ = {{"int", "ai"}, {"int", "bi"}, {"str", "as2"}, {"any", "array_any"}, {"str", "array_str"}, {"S", "at"}, {"ai", "aai"}, {"at", "aat"}, {"nosuch", "ano"}, {"T", "au"}};
static const std::vector<string> USE = {
    "@a := ai(3, 1) ai_push(@a, 2) @a[0] = @a[1] ai_sort(@a) dump(@a, ai_pop(@a))", "@b := bi(4) @b[0] = 6 bi_insert(@b, 0, 5) dump(@b)", "@c := as2(\"x\") as2_push(@c, hs(\"y\")) os(@c[1]) dump(@c)",
    "@d := array_any(1, \"s\") array_any_push(@d, null) @d[0] = 2.5 dump(@d, dict_keys(dict(1, 2)), array_any_len(dict_keys(dict(1, 2))))", "@e := array_str(\"q\") @e[0] = \"r\" dump(@e, dict_str_int_keys(dict_str_int(\"k\", 1))[0])",
    "@f := at(new S{1}) at_push(@f, new S{2}) @f[0].v += 5 dump(@f, @f[1].v)", "@g := aai(ai(1, 2)) @g[0][1] = 7 aai_push(@g, ai()) dump(@g, @g[0][1])", "@h := aat(at(new S{4})) @h[0][0].v = 8 dump(@h)", "ano(1)", "@i := au(new T{1.5}) dump(@i[0].f)"};
static void requests(uint64_t i, int n) {
    mc::Digits d(i);
    int split = (int)d(1u << (n - 1)), style = (int)d(3);
    std::vector<int> q;
    for (int k = 0; k < n; ++k) q.push_back((int)d(REQ.size()));
    // style 0: uses at the end, 1: each use with its request, 2: the uses in a later compilation
    std::vector<string> units{"struct S { v: int } struct T { f: float }\n"};
    string late;
    for (int k = 0; k < n; ++k) {
        if (k && (split >> (k - 1) & 1)) units.push_back("");
        units.back() += "use array(\"" + REQ[q[k]].type + "\") as " + REQ[q[k]].name + "\n";
        string u = sub(USE[q[k]], "@", string(1, (char)('k' + k))) + "\n";
        if (style == 1) units.back() += u; else late += u;
    }
    if (style == 2) units.push_back("");
    units.back() += late;
    df::Duo D(opt);
    for (auto &u : units) if (!D.compile(u)) return;
    D.run();
}
static const std::vector<string> SNIP = {
    "a := @(V0, V1) b := a b[0] = V2 dump(a, b)", "func f(a: @): @ { @_push(a, V0) return a } x := @() dump(f(f(x)), x)", "struct W { l: @ } w := new W{@(V0)} w.l[0] = V1 @_push(w.l, V2) dump(w.l, @_len(w.l))",
    "use array(\"@\") as z z1 := z(@(V0), @(V1)) z1[0][0] = V2 z_push(z1, @()) @_push(z1[2], V0) dump(z1, z1[0][0])", "use array(\"@\") as z use array(\"z\") as y c := y(z(@(V0, V1))) c[0][0][1] = V2 dump(c, c[0][0])",
    "func mk(): @ { return @(V0, V1) } dump(mk()[0], mk()[1]) mk()[0] = V2 dump(@_len(mk()))", "for i := 0; i < 40; i += 1 { } a := @() for j := 0; j < 40; j += 1 { @_push(a, V0) @_insert(a, 0, V1) } dump(@_len(a), a[0], a[79], a[40])",
    "d := dict(\"l\", @(V0)) l := cast(d[\"l\"], @) l[0] = V1 dump(cast(dict_get(d, \"l\"), @)[0])", "n: @? = @(V0) dump(n) n = null m := n", "func o(a: @, i: int, v: #) { a[i] = v } a := @(V0, V0, V0) o(a, 1, V1) o(a, 2, V2) dump(a)",
    "a := @(V0) a[0] = a[0] a[0] = @_get(a, 0) @_set(a, 0, a[0]) dump(a)", "a := @(V0, V1) a->@_push(V2) dump(a->@_pop(), a->@_len())", "func f(i: int, a: @): # { if i == 0 { return a[0] } return f(i - 1, a) } dump(f(3, @(V0)))",
    "use delegate(\"mk2\") as dm func mk2(a: @): int { return @_len(a) } q := dm() dump(delegate_@_int_call(q, @(V0, V1)))", "a := @() @_resize(a, 2) dump(a)", "a := @() @_resize_fill(a, 5, V2) @_resize(a, 1) @_resize(a, 3) dump(a)", "b := box(@(V0)) c := cast(unbox(b), @) dump(c[0])",
    "a := if tb(true) @(V0) else @(V1) dump(a)", "a := @(V0) ok := a == a no := a == @(V0) out(ok, no)", "x: # = @(V0)[0] dump(x)", "i := 0 a := @(V0, V1, V2) while i < @_len(a) { dump(a[i]) i += 1 }",
    "struct P { n: P? l: @ } func np(): P? { } p := new P{np(), @(V0)} q := new P{p, @()} @_push(q.l, p.l[0]) dump(@_len(q.l), q.l)", "use array(\"#\") as other o := other(V0) o[0] = V1 a := @(V2) dump(a, o)", "use array(\"#\") as other o := other(V0) a: @ = o", "use array(\"#\") as other o := other(V0) @_push(o, V1)", "use array(\"#\") as @ use array(\"#\") as @ a := @(V0) a[0] = V1 dump(a)",
};
static string snip(uint64_t i) {
    mc::Digits d(i);
    int e = (int)d(NE), s = (int)d(SNIP.size());
    bool back = d(2);
    string x = SNIP[s];
    x = sub(sub(x, "@", E[e].name), "#", E[e].type);
    for (int k = 0; k < 3; ++k) x = sub(x, "V" + I(k), E[e].vals[k]);
    return DECL + useAll(back) + GLOBALS + x;
}
// Names of every length that the request accepts.
static void names(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(320) + 1, kind = (int)d(5);
    string A = string(n, 'A'), el = kind == 0 ? "int" : kind == 1 ? "str" : string(kind == 2 ? n : kind == 3 ? 600 - n : 120, 'e');
    if ((int)el.size() <= 0) return;
    string v = kind == 0 ? "ti(4)" : kind == 1 ? "hs(\"v\")" : "new " + el + "{1}";
    string src = (kind >= 2 ? "struct " + el + " { v: int }\n" : "") + "use array(\"any\") as array_any use array(\"" + el + "\") as " + A + "\na := " + A + "(" + v + ") " + A + "_push(a, " + v + ") a[0] = " + v + " " + A + "_insert(a, 0, " + v + ") " + A + "_resize_fill(a, 5, " + v + ") " + A + "_set(a, 1, " + v + ") x: " + el + " = a[0] x = " + A + "_get(a, 1) x = " + A + "_pop(a) x = " +
                 A + "_shift(a) " + A + "_remove(a, 0) " + (kind == 0 ? A + "_sort(a)" : "") + " dump(x, a, " + A + "_len(a))";
    { df::Impl I(opt.binder); if (!I.compile(src)) { if (n + el.size() < 100) mc::fail("rejected: %s\n%s", I.err.c_str(), df::clip(src).c_str()); mc::noteSkip(); return; } }
    df::compare(src, opt);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        opt.checkGlobals = false;
        df::arrayNames = {"array_any", "ai", "bi", "as2", "at", "aai", "aat", "au", "array_str", "ano"};
        bool T = mc::thorough;
        auto show = [](string (*g)(uint64_t)) { return [g](uint64_t i) { return g(i); }; };
        mc::family("takes", (uint64_t)NE * TAKES.size() * OTHER.size() * (T ? 4 : 1), [](uint64_t i) { df::compare(takes(i), opt); }, show(takes));
        mc::family("gives", (uint64_t)NE * GIVES.size() * TYPES.size() * (T ? 4 : 1), [](uint64_t i) { df::compare(gives(i), opt); }, show(gives));
        mc::family("snippets", (uint64_t)NE * SNIP.size() * 2, [](uint64_t i) { df::compare(snip(i), opt); }, show(snip));
        mc::family("requests", mc::power(REQ.size(), 3) * 4 * 3, [](uint64_t i) { requests(i, 3); });
        if (T) mc::family("requests-4", mc::power(REQ.size(), 4) * 8 * 3, [](uint64_t i) { requests(i, 4); });
        mc::family("names", 320 * 5, names);
        int k = T ? 4 : 3;
        mc::family("operations", mc::power(NO, k) * NE * (T ? 2 : 1), [k](uint64_t i) {
            bool gc = i / (mc::power(NO, k) * NE);
            i %= mc::power(NO, k) * NE;
            std::vector<int> q;
            for (int j = 0; j < k; ++j) { q.push_back((int)(i % NO)); i /= NO; }
            opsRun((int)i, q, gc);
        });
        mc::family("operations-gc", mc::power(NO, 2) * NE, [](uint64_t i) { opsRun((int)(i / NO / NO), {(int)(i % NO), (int)(i / NO % NO)}, true); });
        int m = T ? 3 : 2;
        mc::family("pairs", mc::power(2 * NO, m) * NE * NE, [m](uint64_t i) {
            std::vector<int> q;
            for (int j = 0; j < m; ++j) { q.push_back((int)(i % (2 * NO))); i /= 2 * NO; }
            pairRun((int)i, q);
        });
    });
}
