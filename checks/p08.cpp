// P08: collections never change what a program observes.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
static const string DECL =
    "use array(\"any\") as array_any\n"
    "struct N { l: any r: any v: int }\n"
    "func mk(l: any, v: int): N { t := new N{l, hs(\"t\", v), v} u := new N{t, null, 0} return cast(u.l, N) }\n"
    "func pass(x: any): any { junk := hs(\"junk\", 1) return x }\n"
    "func two(x: any, y: any): any { j := box(x) k := new N{y, j, 1} return k.l }\n";
static const string VARS = "s := hs(\"a\", 1) n := new N{null, null, 1} a := array_any() d := dict() b := box(null) h := mknat() w: any = null\n";
static std::vector<string> OPS;
static void mkOps() {
    const char *V[] = {"s", "n", "a", "d", "b", "h"};
    for (string v : V) {
        OPS.push_back("n.l = cast(" + v + ", any)");
        OPS.push_back("array_any_push(a, " + v + ")");
        OPS.push_back("dict_put(d, \"k\", " + v + ")");
        OPS.push_back("setbox(b, " + v + ")");
        OPS.push_back("w = cast(" + v + ", any)");
    }
    for (string o : {"s = hs(s, 2)", "n = mk(s, 7)", "a = array_any(s, n)", "d = dict(hs(\"q\"), s, 4, b)", "b = box(w)", "h = mknat()", "w = null", "w = pass(w)", "w = two(n, s)",
                     "dict_remove(d, hs(\"k\"))", "dict_clear(d)", "array_any_clear(a)", "d[hs(\"x\", 3)] = w", "w = d[hs(\"k\")]", "n.r = n.l", "if array_any_len(a) > 0 { w = array_any_pop(a) }", "w = unbox(b)",
                     "s = strcat(s, hs(\"z\"), \"c\")", "ks := dict_keys(d) vs := dict_values(d) t := hs(\"g\") for i := 0; i < array_any_len(ks); i += 1 { dump(dict_exists(d, ks[i])) } w = array_any_len(vs)", "dict_put(d, n, b)", "dict_put(d, h, d)", "if array_any_len(a) > 0 { a[0] = w }", "w = call_function(get_function_index(\"two\"), cast(s, any), cast(n, any))", "w = during(\"two\", hs(\"du\"), s, n)", "w = new N{new N{hs(\"i\"), null, 1}, array_any(hs(\"j\")), 2}"})
        OPS.push_back(o);
}
static df::Machine M[4];
static int GCV[] = {0, 0, 3, 8};
static void seqRun(int which, const std::vector<int> &q) {
    df::Machine &m = M[which];
    if (!m.text) {
        m.opt = df::stdOpt();
        m.opt.checkGlobals = false;
        m.opt.gc = GCV[which];
        bool local = which == 1;
        m.text = [local] { return df::machine(DECL, VARS, OPS, "w2 := hs(\"garbage\")", "dump(s, n, a, d, b, h, w)", local); };
    }
    m.run(q);
}
// ---- every pair of collection points in short programs
static std::vector<string> SHORT;
static void mkShort() {
    const char *E[] = {
        "dump(hs(\"a\"), new N{hs(\"b\"), null, 1}, array_any(hs(\"c\"), box(hs(\"d\"))))",
        "dump(strcat(hs(\"a\"), strcat(hs(\"b\"), hs(\"c\"))), substr(hs(\"abc\"), 1, 3))",
        "dump(mk(mk(hs(\"x\"), 1), 2), pass(pass(box(hs(\"y\")))))",
        "dump(two(hs(\"a\"), two(hs(\"b\"), hs(\"c\"))))",
        "x := new N{hs(\"l\"), hs(\"r\"), 1} y := x x = new N{y.r, y.l, 2} dump(x, y, x == y)",
        "x := array_any() array_any_push(x, x) y := new N{x, null, 1} y.r = y x = array_any(hs(\"z\"), y) dump(x, y)",
        "x := dict(hs(\"k\"), hs(\"v\")) x[hs(\"k\")] = hs(\"w\") x[hs(\"m\")] = x ks := dict_keys(x) vs := dict_values(x) dump(x, array_any_len(ks), dict_exists(x, ks[0]), array_any_len(vs), x[hs(\"k\")])",
        "dump(call_function(get_function_index(\"mk\"), cast(hs(\"a\"), any), 3), hs(\"b\"))",
        "dump(if hs(\"a\") == hs(\"a\") hs(\"t\") else hs(\"f\"), hs(\"b\") == hs(\"c\"))",
        "b := box(null) setbox(b, box(b)) setbox(b, new N{b, hs(\"s\"), 1}) dump(b, unbox(b))",
        "x := array_any(hs(\"a\"), hs(\"b\")) y := x[1] x[1] = hs(\"c\") dump(x, y, array_any_pop(x), array_any_shift(x), y)",
        "dump(during(\"two\", hs(\"a\"), hs(\"b\"), hs(\"c\")), during(\"pass\", box(hs(\"d\")), new N{hs(\"e\"), null, 1}))",
        "dump(hs(\"x\"), during(\"mk\", array_any(hs(\"a\")), hs(\"b\"), 3), during(\"two\", during(\"pass\", hs(\"p\"), hs(\"q\")), hs(\"r\"), during(\"pass\", 1, box(hs(\"s\")))))",
        "x := hs(\"1\") for i := 0; i < 3; i += 1 { x = strcat(x, int_to_str(i), hs(\"-\")) y := hs(\"junk\") } dump(x)",
    };
    for (string e : E) { SHORT.push_back(DECL + "func run() { " + e + " }\nrun()\n"); SHORT.push_back(DECL + e + "\n"); }
    SHORT.push_back(DECL + "func f(n: int, x: any): any { if n == 0 { return x } y := box(x) return f(n - 1, cast(y, any)) }\ndump(f(3, hs(\"deep\")))\n");
    SHORT.push_back(DECL + "g: any = null func set() { g = hs(\"in\") } func get(): any { set() t := hs(\"tmp\") return g }\ndump(get(), get(), g)\n");
}
static string expectOf(const string &src, long &steps) {
    df::Opt o = df::stdOpt();
    df::RefEnv R; o.refBinder(R);
    string why = ref::compile(R.S, src);
    if (!why.empty()) mc::fail("the reference rejects: %s\n%s\n", why.c_str(), src.c_str());
    ref::Machine m(R.S); R.M = &m;
    m.run();
    steps = m.steps;
    return R.log;
}
struct Prog { df::Impl *I; string want; long cycles; };
static std::map<int, Prog> progs;
static Prog &prog(int i) {
    auto it = progs.find(i);
    if (it != progs.end()) return it->second;
    Prog p;
    long st;
    p.want = expectOf(SHORT[i], st);
    p.I = new df::Impl(df::stdOpt().binder);
    if (!p.I->compile(SHORT[i])) mc::fail("rejected: %s\n%s\n", p.I->err.c_str(), SHORT[i].c_str());
    p.cycles = -1;
    return progs[i] = p;
}
// Runs with collections exactly where `at` says.
static void runAt(int i, std::function<bool(long)> at, bool count = false) {
    Prog &p = prog(i);
    df::Impl &I = *p.I;
    if (I.threadUp) { Tiny_DestroyThread(&I.t); I.threadUp = false; }
    for (auto n : I.log.nats) delete n;
    I.log.nats.clear(); I.log.out.clear(); I.log.nextNat = 1;
    I.start();
    long c = 0;
    if (!I.run(100000, i * 1000, [&] { df::gcInForeign = false; I.t.maxNumObjects = at(c++) ? 0 : INT_MAX; })) mc::fail("does not terminate");
    mc::noteRun(); mc::noteTrace();
    if (I.log.out != p.want) mc::fail("collections change what is observed %s\n--- program\n%s\n", df::differ(p.want, I.log.out).c_str(), SHORT[i].c_str());
    if (count) p.cycles = c;
}
static void points(uint64_t idx) {     // a program and the first point; all second points inside
    int i = (int)(idx / 400);
    long a = (long)(idx % 400);
    runAt(i, [](long) { return false; }, true);
    long n = prog(i).cycles;
    if (n > 400) mc::fail("program %d longer than the bound (%ld cycles)", i, n);
    if (a >= n) return;
    if (a == 0) {
        runAt(i, [](long) { return true; });
        for (int m = 2; m < 8; ++m) for (int r = 0; r < m; ++r) runAt(i, [=](long c) { return c % m == r; });
    }
    for (long b = a; b < n; ++b) runAt(i, [=](long c) { return c == a || c == b; });
    for (long b = a; b < n; ++b) runAt(i, [=](long c) { return c >= a && c <= b; });
}
// ---- all argument lists of allocating expressions
static const char *EX[] = {"hs(\"a\", 1)", "new N{hs(\"l\"), s, 3}", "mk(hs(\"m\"), 2)", "array_any(hs(\"e\"), s)", "strcat(s, hs(\"t\"))", "box(new N{s, null, 1})", "dict(hs(\"k\"), hs(\"v\"))", "pass(hs(\"p\"))",
                           "two(hs(\"x\"), box(s))", "n.l", "s", "(if hs(\"q\") == hs(\"q\") hs(\"yes\") else s)", "call_function(get_function_index(\"pass\"), cast(hs(\"cb\"), any))",
                           "during(\"two\", hs(\"d\"), box(s), hs(\"e\"))", "during(\"mk\", array_any(hs(\"d\")), hs(\"l\"), 4)"};
static const int NE = 15;
static string exprs(uint64_t i) {
    mc::Digits d(i);
    string a = EX[d(NE)], b = EX[d(NE)], c = EX[d(NE)];
    int how = (int)d(3);
    string e = how == 0 ? "dump(" + a + ", " + b + ", " + c + ")" : how == 1 ? "dump(new N{" + a + ", new N{" + b + ", " + c + ", 2}, 1})" : "dump(two(" + a + ", array_any(" + b + ", " + c + ")), two(" + b + ", " + a + "))";
    return DECL + "func run(s: str, n: N) { t := hs(\"loc\") " + e + " dump(s, n, t) }\nrun(hs(\"arg\"), mk(hs(\"f\"), 5))\ns := hs(\"gl\") n := mk(s, 1)\n" + e + "\n";
}
// ---- thresholds: live objects and garbage per step under the library's own policy
static string policy(uint64_t i) {
    mc::Digits d(i);
    int live = (int)d(40), junk = (int)d(6), kind = (int)d(3);
    string keep = kind == 0 ? "array_any_push(keep, hs(\"v\", i))" : kind == 1 ? "keep2 = new N{keep2, hs(\"v\", i), i}" : "dict_put(keep3, hs(\"k\", i), new N{hs(\"v\", i), null, i})";
    return DECL + "keep := array_any() keep2: any = null keep3 := dict()\nfunc junk(n: int) { for j := 0; j < n; j += 1 { x := hs(\"junk\", j) } }\nfor i := 0; i < " + I(live) + "; i += 1 { " + keep + " junk(" + I(junk) + ") }\n" +
           (kind == 0 ? "for k := 0; k < array_any_len(keep); k += 1 { dump(keep[k]) junk(" + I(junk) + ") }\n"
            : kind == 1 ? "p := keep2 while p != null { dump(cast(p, N).r) p = cast(p, N).l junk(" + I(junk) + ") }\n"
                        : "for k := 0; k < " + I(live) + "; k += 1 { dump(dict_get(keep3, hs(\"k\", k))) junk(" + I(junk) + ") }\n");
}
// ---- containers of many elements, under the library's own policy
static const int BIG[] = {255, 256, 257, 300, 511, 512, 513, 700, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000};
static const int NBIG = sizeof BIG / sizeof *BIG;
static string big(uint64_t i) {
    mc::Digits d(i);
    int n = BIG[d(NBIG)], kind = (int)d(6), val = (int)d(2), where = (int)d(2);
    string v = val ? "new N{hs(\"l\", i), null, i}" : "hs(\"v\", i)", chk = val ? "if cast(x, N).v != i { dump(i, x) } sum += strlen(cast(cast(x, N).l, str))" : "sum += strlen(cast(x, str))";
    string lp = "for i := 0; i < " + I(n) + "; i += 1 ", b, pre = DECL + "use array(\"N\") as an use array(\"str\") as as\nfunc junk() { for j := 0; j < " + I(n * 3 + 9) + "; j += 1 { hs(\"junk\", j) } }\n";
    switch (kind) {
        case 0: b = "c := array_any() " + lp + "{ array_any_push(c, " + v + ") } junk() " + lp + "{ x := c[i] " + chk + " } dump(c[0], c[" + I(n - 1) + "])"; break;
        case 1: b = "c := dict() " + lp + "{ dict_put(c, hs(\"k\", i), " + v + ") } junk() " + lp + "{ x := dict_get(c, hs(\"k\", i)) " + chk + " }"; break;
        case 2: b = val ? "c := an() " + lp + "{ an_push(c, " + v + ") } junk() " + lp + "{ x := cast(c[i], any) " + chk + " } dump(c[" + I(n - 1) + "])" : "c := as() " + lp + "{ as_push(c, " + v + ") } junk() " + lp + "{ sum += strlen(c[i]) } dump(c[0])"; break;
        case 3: b = "c := array_any() array_any_push(c, 0) array_any_insert(c, 0, 0) array_any_pop(c) " + lp + "{ array_any_insert(c, 0, " + v + ") } junk() " + lp + "{ x := c[" + I(n - 1) + " - i] " + chk + " } dump(c[0], c[" + I(n - 1) + "]) array_any_clear(c)"; break;
        case 4: b = "c := array_any() for i := -30; i < " + I(n) + "; i += 1 { array_any_push(c, " + v + ") } for i := 0; i < 30; i += 1 { array_any_remove(c, 0) } junk() " + lp + "{ x := c[i] " + chk + " }"; break;
        default: b = "c := dict() " + lp + "{ dict_put(c, hs(\"k\", i), " + v + ") } " + lp + "{ if i % 4 != 2 { dict_remove(c, hs(\"k\", i)) } } junk() for i := 2; i < " + I(n) + "; i += 4 { x := dict_get(c, hs(\"k\", i)) " + chk + " }";
    }
    size_t e = b.find("() ") + 3;            // the container is a local variable or a global one
    return pre + (where ? "func run() { sum := 0 " + b + " dump(sum) }\nrun()\n" : b.substr(0, e) + "func run() { sum := 0 " + b.substr(e) + " dump(sum) }\nrun() run()\n");
}
// ---- host calls while suspended, collections everywhere
static void hostCalls(uint64_t idx) {
    int i = (int)(idx / 400);
    long at = (long)(idx % 400);
    string src = SHORT[i] + "func hostcalled(x: any, k: int): any { y := box(hs(\"host\", k)) z := new N{x, y, k} return two(x, z) }\n";
    long st;
    string want = expectOf(src, st);
    df::Impl I(df::stdOpt().binder);
    if (!I.compile(src)) mc::fail("rejected %s", I.err.c_str());
    I.start();
    int f = Tiny_GetFunctionIndex(I.s, "hostcalled");
    long c = 0;
    bool called = false;
    int two = Tiny_GetFunctionIndex(I.s, "two");
    bool ok = I.run(100000, idx, [&] {
        I.t.maxNumObjects = 0;
        if (c++ != at) return;
        called = true;
        df::gcInForeign = true;
        for (int k = 0; k < 2; ++k) {
            Tiny_Value a[2] = {k ? Tiny_NewStringCopy(&I.t, "heap", 4) : Tiny_NewInt(5), Tiny_NewInt(k)};
            // collect at (nearly) every instruction of the call as well
            I.t.maxNumObjects = 0;
            Tiny_Value r = Tiny_CallFunction(&I.t, f, a, 2);
            string s;
            df::deepT(s, &I.t, r, 3);
            string w = k ? "{S4:heap,box(S5:host1),I1}" : "{I5,box(S5:host0),I0}";
            if (s != w) mc::fail("the called function returned %s instead of %s at cycle %ld\n%s", s.c_str(), w.c_str(), at, src.c_str());
        }
    });
    mc::noteRun(); mc::noteTrace();
    if (!ok) mc::fail("does not terminate");
    if (I.log.out != want) mc::fail("a host call at cycle %ld with collections changes what is observed %s\n%s\n", at, df::differ(want, I.log.out).c_str(), src.c_str());
    (void)called; (void)two;
}
// ---- every mixture of kinds of values in every kind of container
static const char *EL[] = {"hs(\"h\", 1)", "1", "null", "true", "2.5", "\"c\"", "new N{hs(\"f\"), 2, 3}", "mknat()", "g"};
static const int NEL = 9, NCT = 14;
static string contents(uint64_t i) {
    mc::Digits d(i);
    int ct = (int)d(NCT), where = (int)d(2);
    std::vector<int> q = mc::seqAt(NEL, d.v);
    if (q.empty()) q.push_back(0);
    std::vector<string> e, k;
    string puts, rev;
    for (size_t j = 0; j < q.size(); ++j) e.push_back(string("cast(") + EL[q[j]] + ", any)");
    bool strs = true, ns = true, ints = true;
    for (int x : q) { if (x != 0 && x != 5) strs = false; if (x != 6) ns = false; if (x == 2) ints = false; }
    string mk, see;
    auto each = [&](const char *t) { string o; for (size_t j = 0; j < e.size(); ++j) o += sub(sub(sub(t, "#", I((long)j)), "@", e[j]), "~", EL[q[j]]) + " "; return o; };
    std::vector<string> plain; for (int x : q) plain.push_back(EL[x]);
    switch (ct) {
        case 0: mk = "c := array_any(" + join(plain, ", ") + ")"; break;
        case 1: mk = "c := array_any() " + each("array_any_push(c, @)"); break;
        case 2: mk = "c := array_any(5) " + each("array_any_insert(c, 0, @)"); break;
        case 3: mk = "c := array_any() array_any_resize(c, 9) " + each("c[#] = @ c[# + 3] = @"); break;
        case 4: mk = "c := array_any(7, 8) array_any_resize_fill(c, 6, " + e[0] + ") " + each("c[#] = @"); break;
        case 5: if (!strs) return ""; mk = "c := strs(" + join(plain, ", ") + ") " + each("strs_push(c, ~)"); break;
        case 6: if (!ns) return ""; mk = "c := ns(" + join(plain, ", ") + ") " + each("ns_insert(c, 0, ~)"); break;
        case 7: mk = "c := dict() " + each("dict_put(c, #, @)"); break;
        case 8: if (!ints) return ""; mk = "c := dict() " + each("dict_put(c, @, #)"); break;
        case 9: mk = "c := dict(" + each("hs(\"k#\"), @,") + ")"; mk = sub(mk, ", )", ")"); break;
        case 10: mk = "c := new N{1, 2, 3} " + each("c.l = @ c = new N{c, @, 4}"); break;
        case 11: mk = "c := box(" + e[0] + ") " + each("c = box(c) setbox(c, @) c = box(c)"); break;
        case 12: mk = "c := sofar(" + join(plain, ", ") + ")"; break;
        default: mk = "c: any = 0 " + each("v# := @ c = two(v#, c)");
    }
    see = "junk() junk() dump(c) junk() dump(c)";
    string body = mk + " " + see + " q := c c = c junk() dump(q) ";
    return DECL + "use array(\"str\") as strs use array(\"N\") as ns\nfunc sofar(" + (ct == 12 ? [&] { string o; for (size_t j = 0; j < q.size(); ++j) o += "p" + I((long)j) + ": any,"; return o; }() : string("p0: any")) + "): any { junk() return " +
           (ct == 12 ? "array_any(" + [&] { string o; for (size_t j = 0; j < q.size(); ++j) o += "p" + I((long)j) + ","; return o; }() + ")" : string("p0")) + " }\n"
           "g := hs(\"global\") func junk() { x := hs(\"j\") y := new N{x, null, 1} }\n" + (where ? "func run() { " + body + " }\nrun()\n" : body + "\n");
}
// ---- what was taken out of a container outlives it
static const char *OKEY[] = {"hs(\"k\", i)", "i", "new N{hs(\"f\", i), null, i}", "mknat()", "box(hs(\"b\", i))", "strcat(hs(\"c\", i), \"d\")"};
static const char *OVAL[] = {"hs(\"v\", i)", "i", "new N{null, hs(\"r\", i), i}", "array_any(hs(\"e\", i))", "box(hs(\"b\", i))"};
static const char *ODROP[] = {"", "d = dict()", "dict_clear(d)", "dict_remove(d, k)", "for i = 0; i < n; i += 1 { dict_put(d, i + 1000, i) }"};
static const char *OTAKE[] = {"dict_keys(d)", "dict_values(d)", "array_any(dict_keys(d), dict_values(d))", "dict(1, dict_keys(d))"};
static const int OMAX = 13;
static string outlive(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(OMAX) + 1, key = (int)d(7), val = (int)d(5), drop = (int)d(5), take = (int)d(4), where = (int)d(2);
    string decl = DECL + "func junk() { x := hs(\"j\") y := new N{x, null, 1} z := array_any(y, box(x)) }\n", get, see;
    if (key == 6) {            // the dictionary from strings to numbers
        decl += "func has(r: array_str, s: str): int { c := 0 for j := 0; j < array_str_len(r); j += 1 { if r[j] == s { c += 1 } } return c }\n";
        decl = "use array(\"str\") as array_str\n" + decl;
        get = "n := " + I(n) + " k := hs(\"k\", 0) d := dict_str_int(k, 0) for i = 0; i < n; i += 1 { dict_str_int_put(d, hs(\"k\", i), i) } ";
        string dr[] = {"", "d = dict_str_int()", "dict_str_int_clear(d)", "dict_str_int_remove(d, k)", "dict_str_int_put(d, hs(\"z\"), 1)"};
        see = "r := dict_str_int_keys(d) " + dr[drop] + " junk() dump(array_str_len(r)) for i = 0; i < n; i += 1 { junk() dump(has(r, hs(\"k\", i))) }";
        if (val || take) return "";
    } else {
        string kd = take == 2 ? "cast(t[0], array_any)" : take == 3 ? "cast(dict_get(cast(t, dict), 1), array_any)" : "t";
        get = "n := " + I(n) + string(" k: any = null d := dict() for i = 0; i < n; i += 1 { k = ") + OKEY[key] + " dict_put(d, k, " + OVAL[val] + ") } ";
        see = string("t := ") + OTAKE[take] + " " + ODROP[drop] + " k = null junk() r := " + (take == 3 ? "cast(dict_get(t, 1), array_any)" : kd) + " dump(array_any_len(r)) junk() ";
        // equal elements are counted, the others shown when there is one
        string e = take == 1 ? OVAL[val] : OKEY[key];
        if (n == 1) see += "dump(r[0]) junk() dump(r, t)";
        else if (e[0] == 'h' || e[0] == 's' || e[0] == 'i') see += "for i = 0; i < n; i += 1 { c := 0 for j = 0; j < n; j += 1 { if r[j] == cast(" + e + ", any) { c += 1 } } dump(c) }";
        else if (e[0] == 'n') see += "v := 0 w := 0 for j = 0; j < n; j += 1 { junk() v += cast(r[j], N).v w += strlen(cast(cast(r[j], N)." + string(take == 1 ? "r" : "l") + ", str)) } dump(v, w)";
        else if (e[0] == 'a') see += "w := 0 for j = 0; j < n; j += 1 { junk() w += strlen(cast(array_any_get(cast(r[j], array_any), 0), str)) } dump(w)";
        else if (e[0] == 'b') see += "w := 0 for j = 0; j < n; j += 1 { junk() w += strlen(cast(unbox(cast(r[j], box)), str)) } dump(w)";
        else see += "w := 0 for j = 0; j < n; j += 1 { junk() for m = 0; m < n; m += 1 { if r[j] == r[m] { w += 1 } } } dump(w)";
        if (take == 2) see += " r2 := cast(t[1], array_any) dump(array_any_len(r2)) if n == 1 { dump(r2) }";
    }
    return decl + (where ? "func run() { i := 0 j := 0 m := 0 " + get + see + " }\nrun() junk()\n" : "i := 0 j := 0 m := 0 " + get + see + "\n");
}
// ---- a container which was empty when it was made is filled
static const char *EMPTY[][3] = {{"dict_keys(dict())", "array_any", ""}, {"dict_values(dict())", "array_any", ""}, {"array_any()", "array_any", ""}, {"array_str()", "array_str", ""}, {"array_N()", "array_N", ""},
    {"dict_str_int_keys(dict_str_int())", "array_str", ""}, {"array_any(1)", "array_any", "array_any_pop(r)"}, {"array_any(hs(\"x\"))", "array_any", "array_any_clear(r)"}, {"array_any(1, 2)", "array_any", "array_any_resize(r, 0)"},
    {"dict()", "dict", ""}, {"dict(\"a\", 1)", "dict", "dict_clear(r)"}, {"array_any(null, 2)", "array_any", "array_any_shift(r) array_any_pop(r)"}};
static const int NEMPTY = sizeof EMPTY / sizeof *EMPTY;
static string refill(uint64_t i) {
    mc::Digits d(i);
    int e = (int)d(NEMPTY), el = (int)d(5), n = (int)d(9) + 1, how = (int)d(3), where = (int)d(2);
    string t = EMPTY[e][1];
    static const char *EL[] = {"hs(\"v\", i)", "new N{hs(\"l\", i), null, i}", "array_any(hs(\"e\", i))", "box(hs(\"b\", i))", "mknat()"};
    string v = EL[el], add;
    if (t == "array_str") { if (el) return ""; }
    else if (t == "array_N") { if (el != 1) return ""; }
    if (t[0] == 'd') { if (how) return ""; add = t + "_put(r, hs(\"k\", i), " + v + ")"; }
    else add = how == 0 ? t + "_push(r, " + v + ")" : how == 1 ? t + "_resize(r, i + 1) r[i] = " + v : "if i == 0 { " + t + "_push(r, " + v + ") } else { " + t + "_insert(r, 0, " + v + ") }";
    string decl = "use array(\"str\") as array_str use array(\"N\") as array_N\n" + DECL + "func junk() { x := hs(\"j\") y := new N{x, null, 1} z := array_any(y, box(x)) }\n";
    string body = string("r := ") + EMPTY[e][0] + " " + EMPTY[e][2] + " junk() for i = 0; i < " + I(n) + "; i += 1 { " + add + " junk() } junk() ";
    if (t[0] == 'd') body += "for i = 0; i < " + I(n) + "; i += 1 { junk() x := " + t + "_get(r, hs(\"k\", i)) " + (el == 4 ? "y := x == null dump(y)" : el == 3 ? "y := cast(unbox(cast(x, box)), str) dump(y)" : "dump(x)") + " }";
    else body += "for i = 0; i < " + I(n) + "; i += 1 { junk() x := r[i] " + (el == 4 ? "y := x == null dump(y)" : el == 3 ? "y := unbox(cast(x, box)) dump(y)" : el == 2 ? "y := array_any_get(cast(x, array_any), 0) dump(y)" : "dump(x)") + " }";
    return decl + (where ? "func run() { i := 0 " + body + " }\nrun() junk()\n" : "i := 0 " + body + "\n");
}
// ---- any number of references of one kind
static const int WIDE[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 254};
static const int NWIDE = sizeof WIDE / sizeof *WIDE;
static string wide(uint64_t i) {
    mc::Digits d(i);
    int n = WIDE[d(NWIDE)], kind = (int)d(10), val = (int)d(2);
    auto v = [&](int k) { return val ? "new N{hs(\"l\", " + I(k) + "), null, " + I(k) + "}" : "hs(\"v\", " + I(k) + ")"; };
    string pre = DECL + "func junk() { x := hs(\"j\") y := new N{x, null, 1} }\n", b;
    auto each = [&](std::function<string(int)> f) { string o; for (int k = 0; k < n; ++k) o += f(k); return o; };
    switch (kind) {
        case 0: pre += "struct W { " + each([](int k) { return "f" + I(k) + ": any "; }) + "}\n"; b = "w := new W{" + each([&](int k) { return "cast(" + v(k) + ", any), "; }) + "} junk() " + each([](int k) { return "dump(w.f" + I(k) + ") "; }); break;
        case 1: pre += "struct W { " + each([](int k) { return "f" + I(k) + ": any "; }) + "}\n"; b = "w := new W{" + each([&](int) { return string("null, "); }) + "} " + each([&](int k) { return "w.f" + I(k) + " = " + v(k) + " "; }) + "junk() " + each([](int k) { return "dump(w.f" + I(k) + ") "; }); break;
        case 2: b = each([&](int k) { return "w" + I(k) + " := " + v(k) + " "; }) + "junk() " + each([](int k) { return "dump(w" + I(k) + ") "; }); break;
        case 3: pre += "func f(" + each([&](int k) { return "p" + I(k) + ": any, "; }) + ") { junk() " + each([](int k) { return "dump(p" + I(k) + ") "; }) + "}\n"; b = "f(" + each([&](int k) { return "cast(" + v(k) + ", any), "; }) + ")"; break;
        case 4: b = "a := array_any(" + each([&](int k) { return (k ? ", " : "") + v(k); }) + ") junk() for i := 0; i < " + I(n) + "; i += 1 { junk() dump(a[i]) }"; break;
        case 5: b = "a := array_any() for i := 0; i < " + I(n) + "; i += 1 { array_any_push(a, " + (val ? "new N{hs(\"l\", i), null, i}" : "hs(\"v\", i)") + ") } junk() for k := 0; k < " + I(n) + "; k += 1 { dump(a[k]) }"; break;
        case 6: b = "d := dict() for i := 0; i < " + I(n) + "; i += 1 { dict_put(d, hs(\"k\", i), " + (val ? "new N{hs(\"l\", i), null, i}" : "hs(\"v\", i)") + ") } junk() for k := 0; k < " + I(n) + "; k += 1 { dump(dict_get(d, hs(\"k\", k))) }"; break;
        case 7: n = std::min(n, 60); pre += "func r(n: int): any { x := " + string(val ? "new N{hs(\"l\", n), null, n}" : "hs(\"v\", n)") + " if n == 0 { junk() return x } y := r(n - 1) dump(x, y) return y }\n"; b = "dump(r(" + I(n) + "))"; break;
        case 8: { string e = v(0); for (int k = 1; k < std::min(n, 100); ++k) e = "two(" + v(k) + ", " + e + ")"; b = "dump(" + e + ")"; break; }
        default: b = "dump(" + each([&](int k) { return (k ? ", " : "") + v(k); }) + ") x := strcat(\"a\", \"b\"" + each([&](int k) { return k > 250 ? string() : ", hs(\"s\", " + I(k) + ")"; }) + ") dump(x)";
    }
    return pre + (i % 2 || kind == 2 ? "func run() { " + b + " }\nrun()\n" : b + "\n") + (kind == 2 ? b + "\n" : "");
}
// ---- many globals
static const int MANY[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700};
static string globals(uint64_t i) {
    mc::Digits d(i);
    int n = MANY[d(11)], val = (int)d(2);
    string s = string(DECL) + "func junk() { x := hs(\"j\") y := new N{x, null, 1} }\n";
    for (int k = 0; k < n; ++k) {
        string K = I(k);
        s += "w" + K + " := ";
        s += k % 3 == 0 || !val ? "hs(\"v\", " + K + ")\n" : k % 3 == 1 ? "new N{hs(\"l\", " + K + "), null, " + K + "}\n" : K + "\n";
    }
    s += "junk()\n";
    for (int k = 0; k < n; ++k) s += "dump(w" + I(k) + ")\n";
    return s;
}
// ---- chains of objects, each reached only through the one before, up to a million long
static const long LEN[] = {1, 10, 1000, 20000, 100000, 300000, 1000000};
static const char *KIND[] = {"first field", "last field", "array element", "dictionary value", "native", "all in turn"};
static string chain(uint64_t i) {
    mc::Digits d(i);
    int len = (int)d(7), kind = (int)d(6), append = (int)d(2);
    string k = kind == 5 ? "i % 5" : I(kind);
    return "use array(\"any\") as array_any\nstruct N { l: any v: int r: any }\n"
           "func mk(x: any, k: int): any { if k == 0 { return new N{x, 0, null} } if k == 1 { return new N{null, 0, x} } if k == 2 { return array_any(x) } if k == 3 { return dict(1, x) } return box(x) }\n"
           "func next(x: any, k: int): any { if k == 0 { return cast(x, N).l } if k == 1 { return cast(x, N).r } if k == 2 { return array_any_get(cast(x, array_any), 0) } if k == 3 { return dict_get(cast(x, dict), 1) } return unbox(cast(x, box)) }\n"
           "func link(p: any, k: int, x: any) { if k == 0 { cast(p, N).l = x } if k == 1 { cast(p, N).r = x } if k == 2 { array_any_set(cast(p, array_any), 0, x) } if k == 3 { dict_put(cast(p, dict), 1, x) } if k == 4 { setbox(cast(p, box), x) } }\n"
           "func count(h: any): int { n := 0 for i := 0; h != null; i += 1 { h = next(h, " + (append ? k : sub(k, "i", "(" + I(LEN[len]) + " - 1 - i)")) + ") n += 1 } return n }\n"
           "h: any = null t: any = null\n" +
           (append ? "for i := 0; i < " + I(LEN[len]) + "; i += 1 { x := mk(null, " + k + ") if h == null { h = x } else { link(t, " + (kind == 5 ? "(i - 1) % 5" : k) + ", x) } t = x }\n"
                   : "for i := 0; i < " + I(LEN[len]) + "; i += 1 { h = mk(h, " + k + ") }\n") +
           "t = null gc() gc() out(count(h))\n";
}
static TINY_FOREIGN_FUNCTION(fGc) { thread->maxNumObjects = 0; return Tiny_Null; }
static void chains(uint64_t i) {
    if (!mc::thorough && i % 7 == 6 && i / 42) return;      // a million from the front is enough
    bool was = df::gcInForeign;
    df::gcInForeign = false;
    string src = chain(i);
    df::Opt o = df::stdOpt();
    {
        df::Impl P([&](Tiny_State *s) { o.binder(s); Tiny_BindFunction(s, "gc(): void", fGc); });
        if (!P.compile(src)) mc::fail("rejected: %s\n%s\n", P.err.c_str(), src.c_str());
        P.start();
        Tiny_Run(&P.t);
        mc::noteRun();
        mc::noteState(mc::hash(&i, sizeof i));
        string want = "out(I" + I(LEN[i % 7]) + ");";
        if (P.log.out.find(want) == string::npos) mc::fail("a chain of %ld objects (%s) is counted as %s\n", LEN[i % 7], KIND[i / 7 % 6], P.log.out.c_str());
    }
    df::gcInForeign = was;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        mkOps(); mkShort();
        df::gcInForeign = true;
        int n = (int)OPS.size();
        for (int w = 0; w < 4; ++w) {
            static const char *nm[] = {"everyCycle", "everyCycleLocals", "threshold3", "threshold8"};
            int len = w < 2 ? 3 : (mc::thorough ? 3 : 2);
            mc::family(nm[w], mc::seqCount(n, len), [w, n](uint64_t i) { seqRun(w, mc::seqAt(n, i)); }, [n](uint64_t i) { return df::showSeq(mc::seqAt(n, i), OPS); });
        }
        if (mc::thorough) {
            // deeper over smaller alphabets: every 2nd / every 4th operation, at two offsets
            for (int off = 0; off < 2; ++off)
                mc::family(off ? "length4b" : "length4a", mc::power(27, 4), [off](uint64_t i) { std::vector<int> q; for (int k = 0; k < 4; ++k, i /= 27) q.push_back((int)(i % 27) * 2 + off); for (int &x : q) if (x >= (int)OPS.size()) x = off; seqRun(off, q); });
            for (int off = 0; off < 4; ++off)
                mc::family("length5" + I(off), mc::power(13, 5), [off](uint64_t i) { std::vector<int> q; for (int k = 0; k < 5; ++k, i /= 13) q.push_back((int)(i % 13) * 4 + off); seqRun(off % 2, q); });
        }
        mc::family("points", SHORT.size() * 400, points, [](uint64_t i) { return "collections at cycle " + I(i % 400) + " and every other cycle of\n" + SHORT[i / 400]; });
        mc::family("hostCalls", SHORT.size() * 400, hostCalls, [](uint64_t i) { return "host call at cycle " + I(i % 400) + " of\n" + SHORT[i / 400]; });
        mc::family("expressions", NE * NE * NE * 3, [](uint64_t i) { df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false; o.mustAccept = true; df::compare(exprs(i), o); }, exprs);
        mc::family("contents", NCT * 2 * mc::seqCount(NEL, mc::thorough ? 4 : 3), [](uint64_t i) {
            string s = contents(i);
            if (s.empty()) return;
            df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false; o.mustAccept = true;
            df::compare(s, o);
        }, contents);
        mc::family("outlive", (uint64_t)OMAX * 7 * 5 * 5 * 4 * 2, [](uint64_t i) {
            if (!mc::thorough && i % OMAX > 2 && i % OMAX < 11) return;
            string s = outlive(i);
            if (s.empty()) return;
            df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false; o.mustAccept = true;
            df::compare(s, o);
        }, outlive);
        mc::family("refilled", NEMPTY * 5 * 9 * 3 * 2, [](uint64_t i) { string s = refill(i); if (s.empty()) { mc::noteSkip(); return; } df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false; o.mustAccept = true; df::compare(s, o); }, [](uint64_t i) { return refill(i); });
        mc::family("wide", NWIDE * 10 * 2, [](uint64_t i) {
            df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false;
            o.mustAccept = i / NWIDE % 10 != 8 || WIDE[i % NWIDE] < 60;
            df::compare(wide(i), o);
        }, wide);
        mc::family("globals", 11 * 2, [](uint64_t i) { df::Opt o = df::stdOpt(); o.gc = 0; o.checkGlobals = false; o.mustAccept = true; df::compare(globals(i), o); }, globals);
        mc::family("chains", 7 * 6 * 2, chains, [](uint64_t i) { return "a chain of " + I(LEN[i % 7]) + " objects, each in the " + KIND[i / 7 % 6] + " of the one before\n" + chain(i); });
        mc::family("policy", 40 * 6 * 3, [](uint64_t i) { df::Opt o = df::stdOpt(); o.useRun = true; o.checkGlobals = false; o.mustAccept = true; df::compare(policy(i), o); }, policy);
        mc::family("large", NBIG * 6 * 2 * 2, [](uint64_t i) {
            if (!mc::thorough && BIG[i % NBIG] > 1025) return;
            df::Opt o = df::stdOpt(); o.useRun = true; o.checkGlobals = false; o.mustAccept = true; o.maxSteps = 20000000;
            df::compare(big(i), o);
        }, big);
    });
}
