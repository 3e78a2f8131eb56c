// P06: index protocol, compound assignment, postfix chains.
#include "diff.hpp"
#include "gen.hpp"
using namespace gen;
// A bound container: values 100*object+index unless set.
struct Cell { int id; std::vector<std::pair<Tiny_Value, Tiny_Value>> kv; };
static TINY_FOREIGN_FUNCTION(vget) { df::logCall(thread, "get", args, count); return Tiny_NewInt(count == 2 ? Tiny_ToInt(args[1]) * 3 + 1 : -1); }
static TINY_FOREIGN_FUNCTION(vset) { df::logCall(thread, "set", args, count); return Tiny_NewInt(count); }
static TINY_FOREIGN_FUNCTION(wget) { df::logCall(thread, "wget", args, count); return Tiny_NewFloat(Tiny_StringLen(args[1]) + 0.5); }
static TINY_FOREIGN_FUNCTION(wset) { df::logCall(thread, "wset", args, count); return Tiny_Null; }
static TINY_FOREIGN_FUNCTION(rget) { df::logCall(thread, "rget", args, count); return Tiny_NewBool(true); }
static TINY_FOREIGN_FUNCTION(mget) { df::logCall(thread, "mget", args, count); return args[0]; }
static TINY_FOREIGN_FUNCTION(mk) { static const Tiny_NativeProp p = {"other", 0, 0}; df::Nat *n = new df::Nat{(int)Tiny_ToInt(args[0]), 0}; df::logOf(thread)->nats.push_back(n); return Tiny_NewNative(thread, n, &df::natProp); }
static void bind(Tiny_State *s) {
    df::bindImpl(s);
    for (auto n : {"vec", "wec", "rec", "mat", "bare", "odd1", "odd3", "pn", "pg", "ps", "pb"}) Tiny_RegisterType(s, n);
    Tiny_BindFunction(s, "vec_get_index(vec, int): int", vget);
    Tiny_BindFunction(s, "vec_set_index(vec, int, int): int", vset);
    Tiny_BindFunction(s, "wec_get_index(wec, str): float", wget);
    Tiny_BindFunction(s, "wec_set_index(wec, str, float): void", wset);
    Tiny_BindFunction(s, "rec_get_index(rec, any): bool", rget);
    Tiny_BindFunction(s, "mat_get_index(mat, int): mat", mget);
    Tiny_BindFunction(s, "mat_set_index(mat, ...): void", vset);
    for (auto n : {"pg_get_index(pg, int): int", "pb_get_index(pb, int): int"}) Tiny_BindFunction(s, n, vget);
    for (auto n : {"ps_set_index(ps, int, int): int", "pb_set_index(pb, int, int): int"}) Tiny_BindFunction(s, n, vset);
    Tiny_BindFunction(s, "odd1_get_index(odd1): int", vget);
    Tiny_BindFunction(s, "odd1_set_index(odd1, int): int", vset);
    Tiny_BindFunction(s, "odd3_get_index(odd3, int, int): int", vget);
    Tiny_BindFunction(s, "odd3_set_index(odd3, int, int, int): int", vset);
    for (auto n : {"mkvec(int): vec", "mkwec(int): wec", "mkrec(int): rec", "mkmat(int): mat", "mkbare(int): bare", "mkodd1(int): odd1", "mkodd3(int): odd3", "mkpn(int): pn", "mkpg(int): pg", "mkps(int): ps", "mkpb(int): pb"}) Tiny_BindFunction(s, n, mk);
}
static void bindRef(df::RefEnv &R) {
    auto &S = R.S;
    for (auto n : {"vec", "wec", "rec", "mat", "bare", "odd1", "odd3", "pn", "pg", "ps", "pb"}) S.registerType(n);
    auto lg = [&R](const char *sig, const char *n, std::function<ref::Val(std::vector<ref::Val> &)> f) {
        R.S.bind(sig, [&R, n, f](std::vector<ref::Val> &a) { df::logRef(R.log, n, a); return f(a); });
    };
    auto nul = [](std::vector<ref::Val> &) { return ref::Val{}; };
    auto cnt = [](std::vector<ref::Val> &a) { return ref::Val::mkInt((int64_t)a.size()); };
    lg("vec_get_index(vec, int): int", "get", [](std::vector<ref::Val> &a) { return ref::Val::mkInt(a[1].i * 3 + 1); });
    lg("vec_set_index(vec, int, int): int", "set", cnt);
    lg("wec_get_index(wec, str): float", "wget", [](std::vector<ref::Val> &a) { return ref::Val::mkFloat(a[1].s->size() + 0.5); });
    lg("wec_set_index(wec, str, float): void", "wset", nul);
    lg("rec_get_index(rec, any): bool", "rget", [](std::vector<ref::Val> &) { return ref::Val::mkBool(true); });
    lg("mat_get_index(mat, int): mat", "mget", [](std::vector<ref::Val> &a) { return a[0]; });
    lg("mat_set_index(mat, ...): void", "set", nul);
    for (auto n : {"pg_get_index(pg, int): int", "pb_get_index(pb, int): int"}) lg(n, "get", [](std::vector<ref::Val> &a) { return ref::Val::mkInt(a[1].i * 3 + 1); });
    for (auto n : {"ps_set_index(ps, int, int): int", "pb_set_index(pb, int, int): int"}) lg(n, "set", cnt);
    lg("odd1_get_index(odd1): int", "get", cnt);
    lg("odd1_set_index(odd1, int): int", "set", cnt);
    lg("odd3_get_index(odd3, int, int): int", "get", cnt);
    lg("odd3_set_index(odd3, int, int, int): int", "set", cnt);
    for (auto n : {"mkvec(int): vec", "mkwec(int): wec", "mkrec(int): rec", "mkmat(int): mat", "mkbare(int): bare", "mkodd1(int): odd1", "mkodd3(int): odd3", "mkpn(int): pn", "mkpg(int): pg", "mkps(int): ps", "mkpb(int): pb"})
        S.bind(n, [&R](std::vector<ref::Val> &a) { return R.nat((int)a[0].i); });
}
static const string PRE =
    "struct In { n: int f: float v: vec b: bool t: str a: any }\nstruct Out { i: In n: int w: wec }\n"
    "struct Pt { x: int y: int }\nfunc Pt_get_index(p: Pt, i: int): int { oi(i) if i == 0 return p.x return p.y }\nfunc Pt_set_index(p: Pt, i: int, v: int) { oi(i + 50) if i == 0 { p.x = v } else p.y = v }\n"
    "struct Ro { x: int }\nfunc Ro_get_index(p: Ro, s: str): int { os(s) return p.x }\n"
    "func in(o: Out): In { os(\"in\") return o.i }\nfunc dbl(n: int): int { return n * 2 }\nfunc add(n: int, m: int): int { return n + m }\n"
    "c :: 5\ngi := 7 gf := 2.5 gb := true gs := \"s\" ga := cast(3, any)\nv := mkvec(1) w := mkwec(2) r := mkrec(3) m := mkmat(4) bare := mkbare(5) o1 := mkodd1(6) o3 := mkodd3(7)\n"
    "i := new In{21, 1.5, v, false, \"t\", null}\no := new Out{i, 33, w}\npt := new Pt{8, 9} ro := new Ro{4}\n";
static const string POST = "\nout(gi, gf, gb, gs, ga) out(i.n, i.f, i.b, i.t, i.a) out(o.n) out(pt.x, pt.y)\n";
static const char *LV[] = {"gi", "gf", "gb", "gs", "ga", "i.n", "i.f", "i.b", "i.t", "i.a", "o.i.n", "o.i.f", "o.n", "in(o).n", "v[2]", "v[gi]", "v[dbl(3)]", "i.v[1]", "o.i.v[gi + 1]", "w[\"ab\"]", "o.w[gs]", "w[1]", "v[\"x\"]",
                           "r[1]", "r[null]", "m[1]", "m[1][2]", "bare[0]", "o1[1]", "o3[1]", "pt[0]", "pt[1]", "pt[v[0]]", "ro[\"q\"]", "c", "l", "p", "lf", "(gi)", "5", "undefinedName", "gi.x", "i.zz", "gi[0]", "gs[0]", "dbl(2)", "i", "o.i", "v"};
static const int NLV = 49;
static const char *AOP[] = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&="};
static const char *RV[] = {"1", "2", "255", "gi", "-3", "1.0", "0.5", "gf", "true", "\"z\"", "null", "ga", "v[4]", "i.n", "dbl(5)", "i", "new In{1, 2.5, v, true, \"u\", null}", "tf(3.0)", "w[\"k\"]", "out(1)", "gi + gi * 2"};
static const int NRV = 21;
static string assign(uint64_t k) {
    mc::Digits d(k);
    string st = string(LV[d(NLV)]) + " " + AOP[d(8)] + " " + RV[d(NRV)];
    int ctx = (int)d(3);
    if (ctx == 0 && (st[0] == 'l' || st[0] == 'p') && st.substr(0, 2) != "pt") return "";
    if (ctx == 0) return PRE + st + POST;
    if (ctx == 1) return PRE + "func run(q: int, p: int) { k := 1 l := 10 lf := 4.0 " + st + " out(q, p, k, l, lf) }\nrun(2, 20)" + POST;
    return PRE + "func run(q: int, p: int): int { l := 10 lf := 4.0 for z := 0; z < 2; z += 1 { " + st + " } return l + p }\nout(run(2, 20))" + POST;
}
// all pairs of assignments in sequence to the well typed int places
static int PO = 8, PR = 6;
static string pairs(uint64_t k) {
    mc::Digits d(k);
    static const char *P[] = {"gi", "i.n", "o.i.n", "v[2]", "o.i.v[gi]", "pt[0]", "pt[1]", "pt.x", "l"};
    string s;
    for (int q = 0; q < 2; ++q) {
        string lv = P[d(9)];
        s += lv + " " + AOP[d(PO)] + " ";
        static const char *R[] = {"1", "3", "gi", "i.n + l", "v[5]", "pt[1]"};
        s += string(R[d(PR)]) + " ";
    }
    return PRE + "func run() { l := 10 " + s + " oi(l) }\nrun()" + POST;
}
// every place assigned from every place, itself included
static const char *SELF[] = {"gi", "gf", "gb", "gs", "ga", "i", "o", "i.n", "i.f", "i.b", "i.t", "i.a", "o.i", "o.n", "o.i.n", "in(o).n", "v[2]", "v[gi]", "i.v[1]", "v", "i.v", "w[\"ab\"]", "pt", "pt[0]", "pt[1]", "pt.x", "l", "p", "lf", "lb", "ls", "lo", "lo.i", "lo.i.b", "li.t", "li.v[l]"};
static const int NSELF = sizeof(SELF) / sizeof(SELF[0]);
static string self(uint64_t k) {
    mc::Digits d(k);
    string a = SELF[d(NSELF)], b = SELF[d(NSELF)], op = AOP[d(4)];
    int ctx = (int)d(4);
    string st = a + " " + op + " " + b;
    bool local = (a[0] == 'l' || a == "p") || (b[0] == 'l' || b == "p");
    if (ctx == 0) return local ? "" : PRE + st + POST;
    string body = ctx == 1 ? st : ctx == 2 ? a + " = " + a + " " + st + " " + b + " = " + a : "for z := 0; z < 2; z += 1 { " + st + " " + b + " = " + b + " }";
    return PRE + "func run(q: int, p: int): int { k := 1 l := 1 lf := 4.0 lb := true ls := \"loc\" lo := o li := i e := 77 " + body + " out(q, p, k, l, lf, lb, ls, e, lo.i.n, li.n, li.b, li.t) return l + p }\nout(run(2, 3))" + POST;
}
// who provides the accessors, and with which signature
static const char *PT[] = {"pn", "pg", "ps", "pb", "Q"};
static const char *PG[] = {"", "(x: X, i: int): int { oi(i) return i * 2 }", "(x: X, i: str): str { out(i) return i }", "(x: X): int { return 5 }", "(x: X, i: int, j: int): int { return j }", "(x: int, i: int): int { return x }",
    "(): int { return 9 }", "(x: X, i: int) { oi(i) }", "(x: X, i: any): any { out(i) return i }", "(y: any, i: int): float { oi(i) return 2.5 }"};
static const char *PS[] = {"", "(x: X, i: int, v: int) { out(i, v) }", "(x: X, i: int, v: str) { out(i, v) }", "(x: X, i: str, v: str) { out(i, v) }", "(x: X, i: int, v: int): int { out(v, i) return v }", "(x: X, v: int) { oi(v) }", "(x: X) { }",
    "(x: X, i: int, v: int, w: int) { oi(w) }", "(x: int, i: int, v: int) { oi(i) }", "(x: any, i: any, v: any) { out(i, v) }", "(x: X, i: int, v: float) { out(i, v) }"};
static const char *PU[] = {"out(x[1])", "x[1] = 5", "x[1] += 2", "out(x[\"a\"])", "x[1] = \"s\"", "x[\"k\"] = \"s\"", "x[3] -= x[2]", "out(x[1] + 1)", "x[x[1]] = x[2]", "x[1]", "y := x[1] out(y)", "x[1] *= 2.0", "x[1] = null", "y: int = x[4] out(y)", "x[1] = 1.5"};
static string providers(uint64_t k) {
    mc::Digits d(k);
    string X = PT[d(5)], g = PG[d(10)], s = PS[d(11)], u = PU[d(15)];
    int form = (int)d(4);
    if (g != "") g = "func " + X + "_get_index" + sub(g, "X", X) + "\n";
    if (s != "") s = "func " + X + "_set_index" + sub(s, "X", X) + "\n";
    string pre = X == "Q" ? "struct Q { v: int }\n" : "", mk = X == "Q" ? "new Q{1}" : "mk" + X + "(1)";
    if (form == 0) return pre + g + s + "x := " + mk + " " + u + "\n";
    if (form == 1) return "x := " + mk + " " + u + "\n" + s + g + pre;
    if (form == 2) return pre + s + "func run(x: " + X + ") { " + u + " " + u + " }\nrun(" + mk + ")\n" + g;
    return pre + g + s + "struct B { x: " + X + " } b := new B{" + mk + "} " + sub(u, "x[", "b.x[") + "\n";
}
// postfix chains: every sequence of postfix operations on every start, used as a value
static const char *START[] = {"o", "i", "v", "m", "pt", "gi", "in(o)", "(o)", "w", "new Pt{1, 2}", "r"};
static const char *POSTF[] = {".i", ".n", ".v", ".w", "[0]", "[\"a\"]", "->in()", "->dbl()", "->add(3)", ".x", "[gi]", "->Pt_get_index(1)", "->v_nope()"};
static const int NPF = 13;
static int CL;
static string chain(uint64_t k) {
    mc::Digits d(k);
    string e = START[d(11)];
    int form = (int)d(3);
    for (int t : mc::seqAt(NPF, d.v)) e += POSTF[t];
    if (form == 1) e = "-" + e;
    if (form == 2) e = e + " + " + e;
    return PRE + "out(" + e + ")" + POST;
}
static string castChain(uint64_t k) {
    mc::Digits d(k);
    static const char *S[] = {"cast(ga2, In)", "cast(null, In)", "cast(o, In)", "cast(ga2, any)", "cast(ga2, vec)"};
    string e = S[d(5)];
    for (int t : mc::seqAt(NPF, d.v)) e += POSTF[t];
    return PRE + "ga2 := cast(i, any)\nout(" + e + ")" + POST;
}
// the names of the types: every length up to 240; next to it a type whose name is one character shorter, longer or different
static string names(uint64_t k) {
    mc::Digits d(k);
    int len = 1 + (int)d(240), other = (int)d(4), use = (int)d(6);
    string T = "T" + string(len - 1, 'y'), O = other == 0 ? "" : other == 1 ? (len == 1 ? "U" : T.substr(0, len - 1)) : other == 2 ? T + "y" : T.substr(0, len - 1) + "z";
    if (O == "") O = "Zz";
    auto def = [](string n, int base) {
        return "struct " + n + " { x: int }\nfunc " + n + "_get_index(p: " + n + ", i: int): int { oi(i + " + I(base) + ") return p.x + i }\nfunc " + n + "_set_index(p: " + n + ", i: int, v: int) { oi(v + " + I(base) + ") p.x = v }\n";
    };
    static const char *U[] = {"out(t[1], u[1])", "t[1] = 5 u[2] = 6 out(t.x, u.x)", "t[1] += 5 u[2] *= 6 out(t[3], u[4])", "out(t[u[1]])", "func f(): T { return t } out(f()[7]) f()[8] = 9 out(t.x)", "t[1] = u"};
    string a = def(T, 1000), b = def(O, 2000);
    return (use % 2 ? a + b : b + a) + "t := new " + T + "{3} u := new " + O + "{4}\n" + sub(U[use], ": T", ": " + T) + "\n";
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static df::Opt opt;
        opt.binder = bind;
        opt.refBinder = bindRef;
        CL = mc::thorough ? 4 : 3;
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { string s = g(i); if (!s.empty()) df::compare(s, opt); }, [g](uint64_t i) { return g(i); });
        };
        fam("names", 240 * 4 * 6, names);
        fam("assign", NLV * 8 * NRV * 3, assign);
        fam("providers", 5 * 10 * 11 * 15 * 4, providers);
        fam("self", (uint64_t)NSELF * NSELF * 4 * 4, self);
        if (!mc::thorough) PO = 4, PR = 3;
        fam("pairs", mc::power(9 * PO * PR, 2), pairs);
        fam("chain", 11 * 3 * mc::seqCount(NPF, CL), chain);
        fam("cast", 5 * mc::seqCount(NPF, mc::thorough ? 3 : 2), castChain);
    });
}
