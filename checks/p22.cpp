// P22: the reported executing file and line. The lines seen before every instruction and by every
// bound function are matched against the statements the reference passes through.
#include "stdref.hpp"
#include "gen.hpp"
#include "corpus.hpp"
#include <set>
using namespace gen;

struct Obs { bool call; int unit, line; };
static std::vector<Obs> seen;
struct Unit { const char *name; string text; };
static const std::vector<Unit> *current;
static int unitOf(const char *f) {
    for (size_t i = 0; i < current->size(); ++i) {
        const char *n = (*current)[i].name;
        if (n == f || (n && f && !strcmp(n, f))) return (int)i;
    }
    return -1;
}
static void look(Tiny_StateThread *t, bool call) {
    const char *f = "none"; int l = -1;
    Tiny_GetExecutingFileLine(t, &f, &l);
    seen.push_back({call, unitOf(f), l});
}
static df::Opt opt;
static string inject;
static bool injectFails;
static TINY_MACRO_FUNCTION(Inject) {
    Tiny_CompileResult r = Tiny_CompileString(state, "injected", inject.c_str());
    Tiny_MacroResult m = {TINY_MACRO_SUCCESS};
    if (r.type != TINY_COMPILE_SUCCESS) { m.type = TINY_MACRO_ERROR; snprintf(m.error.msg, sizeof m.error.msg, "%s", r.error.msg); }
    return m;
}
static unsigned bits; static int nbits, at;
static bool nextBit() { return at < nbits ? bits >> at++ & 1 : false; }
static TINY_FOREIGN_FUNCTION(fCb) { df::logCall(thread, "cb", args, count); return Tiny_NewBool(nextBit()); }
static TINY_FOREIGN_FUNCTION(fBack) {
    df::logCall(thread, "back", args, count);
    Tiny_Value v = Tiny_CallFunction(thread, Tiny_GetFunctionIndex(thread->state, Tiny_ToString(args[0])), args + 1, count - 1);
    df::logCall(thread, "after", args, count);
    return v;
}
// Several units may have the same name; the lines of a statement are compared by name then.
static bool fits(const Obs &o, const ref::Node *n, int kind) {
    if (o.call != (kind == 2) || o.unit < 0) return false;
    const char *a = (*current)[o.unit].name, *b = n->unit < 0 ? "" : (*current)[n->unit].name;
    return (a == b || (a && b && !strcmp(a, b))) && o.line >= n->from && o.line <= n->to;
}
static string showNode(const ref::Node *n) { return "unit " + I(n->unit) + " lines " + I(n->from) + (n->to != n->from ? ".." + I(n->to) : ""); }
static string showUnits() {
    string s;
    for (auto &u : *current) s += string("--- ") + (u.name ? u.name : "(no name)") + "\n" + u.text + "\n";
    return df::clip(s);
}
static const std::set<string> LOGGED = {"out", "oi", "ob", "of", "os", "ti", "tb", "tf", "ts", "ta", "cb", "back"};
static void match(const std::vector<ref::Machine::Passed> &all) {
    std::vector<ref::Machine::Passed> p;
    for (auto &x : all) {
        if (x.kind == 2 && !LOGGED.count(x.f->name)) continue;
        if (x.n->unit >= (int)current->size()) continue;
        p.push_back(x);
    }
    std::vector<int> active{-1}, next;
    long last = -1;
    for (size_t k = 0; k < seen.size(); ++k) {
        if (seen[k].unit < 0) continue;          // code of a macro
        next.clear();
        for (int a : active) {
            if (a >= 0 && p[a].kind < 2 && fits(seen[k], p[a].n, p[a].kind)) next.push_back(a);
            for (int j = a + 1; j < (int)p.size(); ++j) {
                if (fits(seen[k], p[j].n, p[j].kind)) next.push_back(j);
                if (p[j].kind != 0) break;
            }
        }
        std::sort(next.begin(), next.end());
        next.erase(std::unique(next.begin(), next.end()), next.end());
        if (next.empty()) {
            string want;
            int a = active.back();
            if (a >= 0) want += "in or after " + showNode(p[a].n);
            for (int j = a + 1; j < (int)p.size() && j < a + 4; ++j) want += ", " + showNode(p[j].n);
            mc::fail("%s %zu: reported unit %d line %d, but the execution is %s\n%s", seen[k].call ? "call at observation" : "stopped at observation", k, seen[k].unit, seen[k].line, want.c_str(), showUnits().c_str());
        }
        active = next;
        last = (long)k;
    }
    bool done = false;
    for (int a : active) {
        bool ok = true;
        for (int j = a + 1; j < (int)p.size(); ++j) if (p[j].kind) ok = false;
        done = done || ok;
    }
    if (!done) mc::fail("a statement which was executed was never reported: one of those after %s\n%s", active.back() >= 0 ? showNode(p[active.back()].n).c_str() : "the start", showUnits().c_str());
}
// Compiles the units (those in `bad` have to fail), runs and matches.
static bool runBoth(df::Duo &D);
static bool compileAll(df::Duo &D, const std::vector<Unit> &u) {
    current = &u;
    bool any = false;
    for (size_t i = 0; i < u.size(); ++i) {
        D.R.S.unit = (int)i;
        if (D.compile(u[i].text, u[i].name)) any = true;
        D.src += "\n";
    }
    return any;
}
static bool runBoth(df::Duo &D) {
    D.R.log.clear(); D.R.nats.clear(); D.R.strs.clear(); D.R.nextNat = 1;
    if (D.reset) D.reset();
    ref::Machine M(D.R.S);
    D.R.M = &M;
    std::vector<ref::Machine::Passed> passed;
    M.passed = &passed;
    try { M.run(); } catch (ref::Skip &) { mc::noteSkip(); return false; }
    auto &Im = D.I;
    if (Im.threadUp) { Tiny_DestroyThread(&Im.t); Im.threadUp = false; }
    for (auto n : Im.log.nats) delete n;
    Im.log.nats.clear(); Im.log.out.clear(); Im.log.nextNat = 1;
    if (D.reset) D.reset();
    seen.clear();
    df::onLog = [](Tiny_StateThread *t) { look(t, true); };
    Im.start();
    long n = 0;
    for (;; ++n) {
        if (n > M.steps * 100 + 10000) mc::fail("does not terminate\n%s", showUnits().c_str());
        size_t k = seen.size();
        look(&Im.t, false);
        uint64_t h[3] = {D.h, (uint64_t)Im.t.pc, (uint64_t)seen.back().line};
        mc::noteState(mc::hash(h, sizeof h));
        if (!Tiny_ExecuteCycle(&Im.t)) { seen.resize(k); break; }
        if (Tiny_IsThreadDone(&Im.t)) { seen.resize(k); break; }       // that was the end, not a statement
    }
    df::onLog = nullptr;
    mc::noteTransitions(n);
    mc::noteTrace();
    mc::noteRun();
    if (Im.log.out != D.R.log) mc::fail("different behaviour %s\n%s", df::differ(D.R.log, Im.log.out).c_str(), showUnits().c_str());
    match(passed);
    return true;
}
static void both(const std::vector<Unit> &u, bool mustAccept = true) {
    df::Opt o = opt;
    o.mustAccept = mustAccept;
    df::Duo D(o);
    try {
        if (compileAll(D, u)) runBoth(D);
    } catch (ref::Skip &) { mc::noteSkip(); }
}
static std::vector<std::vector<string>> T;
static const std::vector<string> &EXTRA() {
    static const std::vector<string> e = {
        "func q1(x: int) { oi(x) } func q2(x: int): int { q1(x) q1(x + 1) return cast(back(\"q3\", x), int) + 1 } func q3(x: int): int { oi(x) q1(5) return x * 2 } q1(q2(3)) oi(q2(q2(1)))",
        "func q4() { if tb(false) { oi(1) } } q4() oi(2) func q5() { while tb(false) { oi(1) } } q5() q5() q4()",
        "struct Q { a: int } q6 := new Q{ti(1)} q6.a = ti(2) q6.a += ti(3) oi(q6.a) K :: 5 oi(K)",
        "for oi(1); tb(false); oi(2) { oi(3) } for oi(4); tb(false); oi(5) oi(6) if tb(true) oi(7) else oi(8)",
        "n := 0 while n < 3 { n += 1 if n == 1 { if tb(false) { oi(9) } } else if n == 2 { oi(n) } else { if tb(false) { oi(10) } else { } } }",
        "func q7(n: int): int { if n == 0 { return 0 } return q7(n - 1) + ti(n) } oi(q7(3)) back(\"q8\") func q8() { back(\"q9\") oi(1) } func q9() { oi(2) }",
        "{ } { { } oi(1) { } } func q10() { } q10() func q11() { { } } q11() oi(1)",
        "oi(\"ab\"->strlen()) 5->oi() func q12(s: str): str { os(s) return s } \"x\"->q12()->os()",
        "m := 0 for i := 0; i < 3; i += 1 { if i == 1 { continue } for j := 0; j < 3; j += 1 { if j == 1 { break } m += j } if m > 100 { oi(m) } }",
        "z := if tb(true) ti(1) else ti(2) b := tb(true) && tb(false) || tb(true) oi(z) ob(b)",
    };
    return e;
}
static const std::vector<string> &ALL() {
    static std::vector<string> a;
    if (a.empty()) { a = EXTRA(); for (auto &u : corpus::units()) a.push_back(u); }
    return a;
}
static const std::vector<string> SEP = {"\n", "\n\n // note\n\t", rep("\n", 300)};
static string layoutText(uint64_t i, size_t *u) {
    *u = 0;
    size_t per;
    while (i >= (per = (T[*u].size() + 1) * SEP.size() + 40)) { i -= per; ++*u; }
    auto &t = T[*u];
    string s;
    if (i < 40) {                                  // after every k-th token
        size_t k = i % 8 + 1, o = i / 8;
        for (size_t j = 0; j < t.size(); ++j) { s += t[j]; s += (j + o) % k == 0 ? (o == 4 ? "\n\n" : "\n") : " "; }
    } else {
        i -= 40;
        for (size_t j = 0; j <= t.size(); ++j) { if (j == i / SEP.size()) s += SEP[i % SEP.size()]; if (j < t.size()) s += t[j] + " "; }
    }
    return s;
}
static string pairText(uint64_t i, size_t *u) {
    *u = 0;
    size_t per;
    while (i >= (per = T[*u].size() * T[*u].size())) { i -= per; ++*u; }
    auto &t = T[*u];
    size_t a = i % t.size(), b = i / t.size();
    string s;
    for (size_t j = 0; j < t.size(); ++j) { s += t[j]; s += j == a && j == b ? "\n\n" : j == a || j == b ? "\n" : " "; }
    return s;
}
// ---- statement trees as in P02, laid out over lines
static std::vector<string> trees;
static void grow(int n, const string &leaves, const string &un, const string &bi) {
    std::vector<std::vector<string>> by(n + 1);
    for (int k = 1; k <= n; ++k) {
        if (k == 1) for (char c : leaves) by[1].push_back(string(1, c));
        if (k > 1) for (char u : un) for (auto &t : by[k - 1]) by[k].push_back(string(1, u) + t);
        if (k > 2) for (char b : bi) for (int i = 1; i < k - 1; ++i) for (auto &x : by[i]) for (auto &y : by[k - 1 - i]) by[k].push_back(string(1, b) + x + y);
    }
    for (auto &v : by) trees.insert(trees.end(), v.begin(), v.end());
}
struct Printer {
    const string &t; int mode; size_t p = 0; int n = 0; int nl = 0;
    string end() { ++nl; return mode == 0 ? "\n" : mode == 1 ? (nl % 2 ? "\n" : " ") : nl % 3 == 0 ? "\n\n// c\n" : nl % 3 == 1 ? "\n" : " "; }
    string go() {
        char c = t[p++];
        switch (c) {
            case 'o': return "oi(" + I(++n) + ")" + end();
            case 'f': return "g()" + end();
            case 'x': return "y = h(" + I(++n) + ")" + end();
            case 'b': return "break" + end();
            case 'c': return "continue" + end();
            case 'r': return "return;" + end();
            case 'I': return "if cb() " + body();
            case 'W': return "while cb() " + body();
            case 'F': { int k = ++n; return "for oi(" + I(k * 10) + "); cb(); oi(" + I(k * 10 + 1) + ") " + body(); }
            case 'S': { string a = go(); return a + go(); }
            case 'E': { string a = body(); return "if cb() " + a + "else " + body(); }
        }
        return "";
    }
    string body() {
        char c = t[p];
        if (mode == 1 && c != 'S' && c != 'I') return end() + go();
        if (mode == 2) return end() + "{" + end() + go() + "}" + end();
        return "{" + end() + go() + "}" + end();
    }
};
static string treeText(uint64_t i) {
    mc::Digits d(i);
    int ctx = (int)d(3), mode = (int)d(3);
    Printer P{trees[d(trees.size())], mode};
    string pre = "y := 0\nfunc g() {\n oi(500)\n}\nfunc h(a: int): int { return a }\n", s = P.go();
    if (ctx == 0) return pre + "func f() {\n" + s + "}\nf()\nf() oi(999)\n";
    if (ctx == 1) return pre + s + "oi(999)\n";
    return pre + "func f() {\n for i := 0; i < 2; i += 1 {\n" + s + "}\n}\nf()\n";
}
static void treeCase(uint64_t i) {
    df::Opt o = opt;
    df::Duo D(o);
    std::vector<Unit> u{{"main", treeText(i)}};
    if (!compileAll(D, u)) return;
    D.reset = [] { at = 0; };
    nbits = mc::thorough ? 6 : 4;
    for (bits = 0;;) {
        runBoth(D);
        int used = std::min(at, nbits);
        while (used && (bits >> (used - 1) & 1)) --used;
        if (!used) break;
        bits = (bits & ((1u << (used - 1)) - 1)) | 1u << (used - 1);
    }
}
// ---- several units
static const char *PIECE[] = {"oi(1)", "x@ := 1", "K@ :: 1", "struct S@ { a: int }", "func f@() {\n oi(1)\n}", "", "\n\noi(2)\n", "{ }", "if tb(false) {\n oi(3)\n}", "func f@() { oi(4) } f@()", "oi(5) oi(", "\nx@ := nosuch", "while tb(false) {\n}\n", "use array(\"int\") as a@ v@ := a@(1) oi(a@_len(v@))"};
static const int NP = sizeof PIECE / sizeof *PIECE;
static const char *NAME[][4] = {{"a", "b", "c", "d"}, {"a", "a", "a", "a"}, {nullptr, "b", nullptr, "d"}, {"a", "b", "a", "b"}};
static std::vector<Unit> unitsOf(uint64_t i) {
    int nm = (int)(i % 4);
    std::vector<Unit> u;
    int k = 0;
    for (int p : mc::seqAt(NP, i / 4)) { string t = sub(PIECE[p], "@", I(k)); u.push_back({NAME[nm][k++], t}); }
    return u;
}
static string sizes(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(mc::thorough ? 1500 : 400), gap = (int)d(3), kind = (int)d(4);
    string s, g = rep("\n", gap == 0 ? 1 : gap == 1 ? 2 : 7);
    if (kind == 0) for (int k = 0; k < n; ++k) s += "oi(" + I(k) + ")" + g;
    if (kind == 1) { for (int k = 0; k < n; ++k) s += "func f" + I(k) + "(x: int) {" + g + "oi(x) if tb(false) {" + g + "oi(0)" + g + "}" + g + "}" + g; if (n) s += "f0(1)" + g + "f" + I(n - 1) + "(2)" + g + "f" + I(n / 2) + "(3)"; }
    if (kind == 2) s = rep(g, n * 17) + "oi(1)" + rep(g, n) + "oi(2) oi(3)\noi(4)";
    if (kind == 3) { s = "x := 0" + g; for (int k = 0; k < n; ++k) s += "x += " + I(k % 3) + " if x == " + I(k) + " {" + g + "ti(x)->oi()" + g + "}" + g; }
    return s;
}
// ---- what the script itself is told
static const char *HERE[] = {"@", "v# := @", "x = @", "g.a = @", "g.a += @", "a[@] = @", "oi(@)", "if @ == 0 { } else { @ }", "while @ == 0 { }", "for @; @ == 0; @ { }", "f(@)", "@->f()", "k = new S{@}", "h(1, @)", "{ @ { @ } @ }", "x = if @ == 0 @ else @", "b = @ == 0 && @ == 0 || @ == 0", "x = f(f(@) + @)", "gg()"};
static const int NHERE = sizeof HERE / sizeof *HERE;
static std::vector<std::pair<long, int>> heres;
static TINY_FOREIGN_FUNCTION(fHere) {
    int l = -1;
    Tiny_GetExecutingFileLine(thread, nullptr, &l);
    heres.push_back({(long)Tiny_ToInt(args[0]) * 1000 + Tiny_ToInt(args[1]), l});
    return Tiny_NewInt(1);
}
static string hereText(uint64_t i, int unit) {
    mc::Digits d(i);
    int kind[2] = {(int)d(NHERE), (int)d(NHERE)}, gap = (int)d(4), where = (int)d(3);
    static const char *GAP[] = {"\n", "\n\n", "\n// x\n\n", "\nos(\"q\n\n\")\n"};
    string s = unit ? "" : "struct S { a: int }\nfunc f(x: int): int { return x }\nfunc h(x: int, y: int) { }\nfunc gg() {" + string(GAP[gap]) + "@ }\nuse array(\"int\") as ai\ng := new S{1} k := g\na := ai(1, 2)\nx := 1\nb := true\n";
    if (where == 1) s += "func q" + I(unit) + "() {\n";
    if (where == 2) s += "if true {\n";
    for (int n = 0; n < 2; ++n) s += GAP[gap] + sub(HERE[kind[n]], "#", I(unit * 2 + n)) + "\n";
    if (where) s += "}\n";
    if (where == 1) s += "q" + I(unit) + "()";
    string o;
    int line = 1;
    for (char c : s) { if (c == '@') o += "here(cast(get_executing_line(), int), " + I(line) + ")"; else o += c; if (c == '\n') ++line; }
    return o;
}
static void hereCase(uint64_t i) {
    heres.clear();
    Tiny_State *s = Tiny_CreateState();
    opt.binder(s);
    Tiny_BindFunction(s, "here(int, int): int", fHere);
    for (int u = 0; u < 2; ++u) {
        string t = hereText(u ? i + 7 : i, u);
        Tiny_CompileResult r = Tiny_CompileString(s, u ? "two" : "one", t.c_str());
        if (r.type != TINY_COMPILE_SUCCESS) mc::fail("rejected: %s\n%s", r.error.msg, t.c_str());
    }
    Tiny_StateThread t;
    df::Log log;
    Tiny_InitThread(&t, s); t.userdata = &log;
    Tiny_StartThread(&t); Tiny_Run(&t);
    Tiny_DestroyThread(&t); Tiny_DeleteState(s);
    for (auto &h : heres) if (h.first / 1000 != h.first % 1000 || h.second != h.first % 1000)
        mc::fail("get_executing_line() on line %ld gives %ld, the host is told %d\n%s----\n%s", h.first % 1000, h.first / 1000, h.second, hereText(i, 0).c_str(), hereText(i + 7, 1).c_str());
    if (heres.empty()) mc::fail("nothing ran\n%s", hereText(i, 0).c_str());
    uint64_t k = mc::hash(heres.data(), heres.size() * sizeof heres[0]);
    mc::noteState(k); mc::noteTransitions((long)heres.size()); mc::noteTrace();
}
static string over(const std::vector<string> &O, uint64_t i) {
    mc::Digits d(i);
    string a = O[d(O.size())], b = O[d(O.size())];
    int how = (int)d(6);
    for (string n : {"k0", "q8"}) for (size_t p = 0; (p = b.find(n, p)) != string::npos; p += 2) b[p + 1] = '1';
    bool top = a.find("::") != string::npos || b.find("::") != string::npos || a.find("func") != string::npos || b.find("func") != string::npos;
    switch (top ? how % 3 : how) {
        case 0: return a + " oi(1) " + b + " oi(2)\noi(3)\n";
        case 1: return "oi(1) " + a + "\nfunc g3(x: int): int {\noi(x)\nreturn x }\n" + b + " g3(2) oi(3)\n";
        case 2: return a + b + "oi(1)\nif tb(true) { oi(2) }\nfor oi(4); tb(false); oi(5) oi(6)\n";
        case 3: return "func g3(x: int): int {\n" + a + " oi(x) " + b + " return x }\noi(g3(1)) oi(g3(2))\n";
        case 4: return "if tb(true) { " + a + " oi(1) } else {\n" + b + " oi(2) } oi(3)\n";
        default: return "n := 0 while n < 2 { " + a + " n += 1\n" + b + "\noi(n) } oi(4)\n";
    }
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto b0 = opt.binder;
        opt.binder = [b0](Tiny_State *s) {
            b0(s);
            Tiny_BindFunction(s, "cb(): bool", fCb);
            Tiny_BindFunction(s, "back(str, ...): any", fBack);
            Tiny_BindMacro(s, "inject", Inject);
        };
        auto r0 = opt.refBinder;
        opt.refBinder = [r0](df::RefEnv &R) {
            r0(R);
            df::RefEnv *P = &R;
            R.S.bind("cb(): bool", [P](std::vector<ref::Val> &) { P->log += "cb();"; return ref::Val::mkBool(nextBit()); });
            R.S.bind("back(str, ...): any", [P](std::vector<ref::Val> &a) {
                ref::Func *f = P->S.func(*a[0].s);
                if (!f) throw ref::Skip{"?"};
                df::logRef(P->log, "back", a);
                std::vector<ref::Val> x(a.begin() + 1, a.end());
                // the second observation, after the call
                auto *M = P->M;
                ref::Node *at = M->cur;
                ref::Val v = M->invoke(f, x);
                if (M->passed) { static ref::Func after = [] { ref::Func f; f.name = "out"; return f; }(); M->passed->push_back({at, 2, &after}); }
                df::logRef(P->log, "after", a);
                return v; });
            R.S.macros.push_back({"inject", [P](ref::State &S, const std::vector<string> &, const string &) {
                int u = S.unit;
                S.unit = 1;
                string why = ref::compile(S, inject);
                S.unit = u;
                return why.empty(); }});
        };
        for (auto &u : ALL()) T.push_back(corpus::tokens(u));
        uint64_t n = 0, np = 0;
        for (auto &t : T) { n += (t.size() + 1) * SEP.size() + 40; np += t.size() * t.size(); }
        mc::family("layouts", n, [](uint64_t i) { size_t u; both({{"main", layoutText(i, &u)}}); }, [](uint64_t i) { size_t u; return df::clip(layoutText(i, &u)); });
        if (!mc::thorough) { np = 0; for (size_t k = 0; k < EXTRA().size(); ++k) np += T[k].size() * T[k].size(); }
        mc::family("layout-pairs", np, [](uint64_t i) { size_t u; both({{"main", pairText(i, &u)}}); }, [](uint64_t i) { size_t u; return pairText(i, &u); });
        grow(mc::thorough ? 5 : 4, "ofxbcr", "IWF", "SE");
        if (!mc::thorough) grow(5, "of", "IW", "SE"); else grow(6, "ofb", "IW", "SE");
        mc::family("trees", trees.size() * 9, treeCase, treeText);
        mc::family("units", 4 * mc::seqCount(NP, mc::thorough ? 4 : 3), [](uint64_t i) { auto u = unitsOf(i); both(u, false); },
                   [](uint64_t i) { string s; for (auto &u : unitsOf(i)) s += string(u.name ? u.name : "?") + ": " + u.text + " | "; return s; });
        mc::family("sizes", (mc::thorough ? 1500 : 400) * 12, [](uint64_t i) { both({{"main", sizes(i)}}); }, [](uint64_t i) { return df::clip(sizes(i), 200); });
        // many recorded positions: the first, the last and ones between are asked for from far away
        static const int BIG[] = {700, 1023, 1025, 1500, 2047, 2050, 2100, 3000, 4096, 4100, 5000, 8192, 9000, 16390};
        auto big = [](uint64_t i) {
            int n = BIG[i / 3], kind = (int)(i % 3);
            string s = "func first(x: int) { oi(x)\nif x > 0 {\nfirst(x - 1)\n}\n}\n";
            for (int k = 0; k < n; ++k) {
                if (kind == 0 && k % 100) s += "if tb(false) { oi(" + I(k) + ")\n}\n";
                else if (kind == 1) { if (k % 50 == 0) s += string(k ? "}\n" : "") + "func f" + I(k / 50) + "(x: int) {\n"; s += k % 50 == 7 ? "oi(x)\n" : "if x < 0 { oi(1)\n}\n"; }
                else s += k % 97 ? "z" + I(k) + " := " + I(k % 7) + "\n" : "oi(z0) first(1)\n";
                if (!k && kind != 1) s.replace(s.rfind("oi("), string::npos, "z0 := 1\n");
            }
            if (kind == 1) { s += "}\n"; for (int k = 0; k <= (n - 1) / 50; k += std::max(1, n / 500)) s += "f" + I(k) + "(1)\n"; }
            return s + "first(2)\noi(5)\n";
        };
        mc::family("many-positions", (mc::thorough ? 14 : 11) * 3, [big](uint64_t i) { both({{"main", big(i)}}); }, [big](uint64_t i) { return df::clip(big(i), 300); });
        // a state which already holds any number of strings, and any number of files
        mc::family("many-strings", mc::thorough ? 1000 * 4 : 36, [](uint64_t i) {
            int n = mc::thorough ? (int)(i / 4) : i < 12 ? (int)i * 82 : (int)(i - 12 + (i < 24 ? 244 : 488));
            int how = (int)(i % 4);
            string pre = "oi(1)\n";
            for (int k = 0; k < n; ++k) pre += how % 2 ? "s" + I(k) + " :: \"t" + I(k) + "\"\n" : "ts(\"t" + I(k) + "\")" + (k % 10 ? " " : "\n");
            std::vector<Unit> u{{"first", pre}, {"second", "oi(1)\n\nfunc b(x: int): int {\noi(x)\nreturn x }\nb(3)\n"}, {how < 2 ? "third" : "first", "\n\n\nb(2)\nif tb(false) {\noi(4) }\noi(cast(back(\"b\", 5), int))\n"}};
            both(u);
        }, [](uint64_t i) { return I(i) + ": files after many strings"; });
        mc::family("many-files", mc::thorough ? 600 * 2 : 75, [](uint64_t i) {
            int n = mc::thorough ? (int)i / 2 + 1 : (int)i * 4 + 1, same = (int)(i % 2);
            static std::vector<string> names;
            names.clear();
            for (int k = 0; k < n; ++k) names.push_back("file" + I(same ? k % 7 : k));
            std::vector<Unit> u;
            for (int k = 0; k < n; ++k) u.push_back({names[k].c_str(), rep("\n", k % 5) + "func f" + I(k) + "(x: int): int {\n" + (k ? "oi(x) return f" + I(k / 2) + "(x)" : "oi(0) return 1") + "\n}\noi(" + I(k) + ")\nf" + I(k) + "(" + I(k) + ")\n"});
            both(u);
        }, [](uint64_t i) { return I(i) + ": many files"; });
        // literals and comments which hold line ends, before and within the statements
        static const std::vector<string> OVER = {"oi('\\\n')", "os(\"a\\\nb\")", "os(\"\\\n\\\n\\n\")", "k0 :: \"\\\n\"", "k0 :: '\\\n'", "oi('\n')", "oi('\n') oi('\n')", "k0 :: '\n'", "os(\"\n\")", "os(\"a\nb\n\nc\")", "os(\"\n\" )os(\"\\n\n\")", "k0 :: \"\n\n\"", "oi('\\n')", "// x\n", "// '\n", "// \"\n", "// a // b\n\n//\n",
            "oi('a') // '\n", "\r\n\r\n", "os(\"\r\n\")", "os(\"\\\"\n\")", "os(\"'\n'\")", "oi('\"')oi('\n')", "\t\v\f\n", "func q8(): int { return '\n' } oi(q8())", "if tb(false) { oi('\n') } else os(\"\n\")", "while tb(false) { os(\"\n\n\") oi('\n') }", "oi('\n' + '\n' * ti('\n'))"};
        mc::family("over-lines", OVER.size() * OVER.size() * 6, [](uint64_t i) { both({{"main", over(OVER, i)}}); }, [](uint64_t i) { return over(OVER, i); });
        mc::family("asked-by-the-script", NHERE * NHERE * 12, hereCase, [](uint64_t i) { return df::clip(hereText(i, 0)); });
        // code injected by a macro at every place, before or after other code
        mc::family("injected", ALL().size() * 8, [](uint64_t i) {
            const string &x = ALL()[i / 8];
            int how = (int)(i % 8);
            auto &t = T[i / 8];
            inject.clear();
            for (size_t j = 0; j < t.size(); ++j) inject += t[j] + (how & 1 ? "\n" : j % 3 ? " " : "\n");
            std::vector<Unit> u{{"main", string(how & 2 ? "\n\noi(77)\n" : "") + "use inject()\n" + (how & 4 ? "oi(78)\n\noi(79)" : "")}, {"injected", ""}};
            both(u);
        });
        // a compile which fails somewhere, between two which do not
        mc::family("after-failures", ALL().size() * EXTRA().size() * 3, [](uint64_t i) {
            const string &a = EXTRA()[i / 3 % EXTRA().size()];
            auto &t = T[i / 3 / EXTRA().size()];
            string b;
            size_t cut = t.size() * (i % 3 + 1) / 4;
            for (size_t j = 0; j < cut; ++j) b += t[j] + (j % 4 ? " " : "\n");
            b += i % 2 ? "\n)" : "\noi(nosuch)";
            string c;
            for (auto &x : corpus::tokens("func zz() { if tb(false) { oi(1) } } zz() oi(2) while tb(false) { } oi(3)")) c += x + "\n";
            string aa;
            for (auto &x : corpus::tokens(a)) aa += x + (x == ")" || x == "}" ? "\n" : " ");
            both({{"first", aa}, {"second", b}, {"third", c}}, false);
        });
    });
}
