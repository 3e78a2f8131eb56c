// P13: compiling in pieces equals compiling the concatenation; code compiled by a macro is code of the program.
#include <set>
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
using namespace gen;
static const std::vector<string> &U = corpus::units();
static std::vector<std::vector<string>> T;
static df::Opt OPT;
static string lookup(Tiny_State *s, const string &n) {
    string o = n + (Tiny_GetGlobalIndex(s, n.c_str()) >= 0 ? " g" : " -") + (Tiny_GetFunctionIndex(s, n.c_str()) >= 0 ? "f" : "-");
    auto tag = [](const Tiny_Symbol *t) { return string(t ? t->name : "?"); };
    auto sym = [&](const Tiny_Symbol *y) {
        if (!y) { o += " -"; return; }
        o += " " + I(y->type);
        if (y->type == TINY_SYM_TAG_STRUCT) for (size_t i = 0; i < Tiny_SymbolArrayCount(y->sstruct.fields); ++i) o += "," + string(y->sstruct.fields[i]->name) + ":" + tag(y->sstruct.fields[i]->fieldTag);
        if (y->type == TINY_SYM_FUNCTION) { for (size_t i = 0; i < Tiny_SymbolArrayCount(y->func.args); ++i) o += "," + tag(y->func.args[i]->var.tag); o += ">" + tag(y->func.returnTag); }
        if (y->type == TINY_SYM_FOREIGN_FUNCTION) o += "/" + I((long)Tiny_SymbolArrayCount(y->foreignFunc.argTags)) + tag(y->foreignFunc.returnTag);
    };
    sym(Tiny_FindTypeSymbol(s, n.c_str()));
    sym(Tiny_FindFuncSymbol(s, n.c_str()));
    sym(Tiny_FindConstSymbol(s, n.c_str()));
    return o + "\n";
}
static std::set<string> names(const string &src) {
    std::set<string> o;
    for (auto &t : corpus::tokens(src)) if (isalpha((unsigned char)t[0])) { o.insert(t); o.insert(t + "?"); o.insert(t + "_to_json"); o.insert(t + "_push"); }
    return o;
}
static string view(Tiny_State *s, const string &src) { string o; for (auto &n : names(src)) o += lookup(s, n); return o; }
// Runs from the start and also reports the globals (h3 is a delegate, whose value is opaque).
static string observe(df::Impl &I_, const string &src) {
    if (I_.threadUp) { Tiny_DestroyThread(&I_.t); I_.threadUp = false; }
    for (auto n : I_.log.nats) delete n;
    I_.log.nats.clear(); I_.log.out.clear(); I_.log.nextNat = 1;
    I_.start();
    if (!I_.run(300000)) return I_.log.out + " (does not end)";
    mc::noteRun();
    string o = I_.log.out + "|";
    for (auto &n : names(src)) {
        int g = Tiny_GetGlobalIndex(I_.s, n.c_str());
        if (g >= 0 && n != "h3") { o += n + "="; df::showT(o, Tiny_GetGlobal(&I_.t, g)); o += ";"; }
    }
    return o;
}
struct Whole { bool ok; string err, view, obs; };
static Whole whole(const std::vector<string> &p, size_t n, const string &sep) {
    string src;
    for (size_t i = 0; i < n; ++i) src += p[i] + sep;
    df::Impl X(OPT.binder);
    Whole w;
    w.ok = X.compile(src);
    w.err = X.err;
    if (w.ok) { w.view = view(X.s, src); w.obs = observe(X, src); }
    return w;
}
// One split (bit i of cut: a new compilation starts after piece i) against the whole, for every prefix.
static void split(const std::vector<string> &p, uint64_t cut, const string &sep, std::vector<Whole> &W, bool everyPrefix) {
    df::Impl X(OPT.binder);
    string part, all;
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i) {
        part += p[i] + sep;
        all += p[i] + sep;
        if (i + 1 < n && !(cut >> i & 1)) continue;
        // calling a function by an index which does not exist is not defined
        if (all.find("call_function") != string::npos && all.find("func r2") == string::npos) return;
        bool ok = X.compile(part, ("part" + I((long)i)).c_str());
        mc::noteTrace();
        if (!ok) {
            // whatever is rejected alone and needs no later declaration is rejected in the whole too: judged by the reference family
            mc::noteState(mc::hash(X.err));
            return;
        }
        if (!everyPrefix && i + 1 < n) { part.clear(); continue; }
        if (W[i].obs.empty() && W[i].err.empty()) W[i] = whole(p, i + 1, sep);
        Whole &w = W[i];
        if (!w.ok) mc::fail("accepted in pieces, but the whole is rejected with %s\n--- whole\n%s\n--- cuts %llx", w.err.c_str(), all.c_str(), (unsigned long long)cut);
        string v = view(X.s, all), o = observe(X, all);
        if (v != w.view) mc::fail("the host sees different names after compiling in pieces %s\n--- whole\n%s\n--- cuts %llx", df::differ(w.view, v).c_str(), all.c_str(), (unsigned long long)cut);
        if (o != w.obs) mc::fail("the pieces behave differently from the whole %s\n--- whole\n%s\n--- cuts %llx", df::differ(w.obs, o).c_str(), all.c_str(), (unsigned long long)cut);
        part.clear();
    }
}
static void allSplits(const std::vector<string> &p, const string &sep, bool everyPrefix) {
    std::vector<Whole> W(p.size());
    for (uint64_t cut = 1; cut < 1ull << (p.size() - 1); ++cut) split(p, cut, sep, W, everyPrefix);
}
static const char *PIECE[] = {
    "a := 1", "out(a)", "a = a + f(a)", "func f(x: int): int { return x + 1 }", "func g() { a = a + 1 out(a, \"g\") }", "g()",
    "struct S { v: int n: any }", "s := new S{1, null}", "s.v = s.v + a out(s)", "K :: 5", "out(K, \"str\")",
    "while a < 3 { a += 1 if a == 2 { continue } out(a) }", "use array(\"int\") as ai", "b := ai(1, a) out(b[0])", "{ c := 7 out(c) }",
    "for i := 0; i < 2; i += 1 { out(i) }", "func h(s: S): int { return s.v }", "out(h(s))", "a := 2", "func f(x: int): int { return x * 100 }",
    "if a == 1 { out(\"one\") } else { out(\"other\", 2.5) }", "func k(n: int): int { if n < 1 { return 0 } return n + k(n - 1) }", "d := \"str\" out(d == \"str\", d)", "e := if a == 1 k(3) else f(2) out(e)",
};
static const int NP = sizeof PIECE / sizeof *PIECE;
static std::vector<string> pieces(const std::vector<int> &q) { std::vector<string> o; for (int k : q) o.push_back(PIECE[k]); return o; }
static string show(const std::vector<string> &p) { return join(p, "\n"); }
// Against the reference: the verdict and behaviour after every piece.
static void refSplit(const std::vector<string> &p, uint64_t cut) {
    df::Duo D(OPT);
    string part;
    for (size_t i = 0; i < p.size(); ++i) {
        part += p[i] + "\n";
        if (i + 1 < p.size() && !(cut >> i & 1)) continue;
        if (!D.compile(part)) return;
        D.run();
        part.clear();
    }
}
static const std::vector<std::vector<int>> PROG = {
    {3, 0, 1, 2, 4, 5, 11, 6, 7}, {6, 9, 0, 7, 8, 16, 17, 10, 22}, {12, 0, 13, 14, 15, 20, 21, 3, 23}, {15, 22, 10 - 1, 10, 14, 0, 11, 20, 1},
    {0, 3, 19, 2, 1, 4, 5, 20, 1}, {21, 3, 0, 23, 14, 22, 15, 6, 9},
};
// ---- a macro which compiles a given text
static string inject;
static TINY_MACRO_FUNCTION(Inject) {
    Tiny_CompileResult r = Tiny_CompileString(state, "injected", inject.c_str());
    Tiny_MacroResult m = {TINY_MACRO_SUCCESS};
    if (r.type != TINY_COMPILE_SUCCESS) { m.type = TINY_MACRO_ERROR; snprintf(m.error.msg, sizeof m.error.msg, "%s", r.error.msg); }
    return m;
}
static string injected2;
static TINY_MACRO_FUNCTION(InjectUse) {      // compiles code which uses the other macro
    string t = inject + "\nuse inject()\n";
    string keep = inject;
    inject = injected2;
    Tiny_CompileResult r = Tiny_CompileString(state, "outer", t.c_str());
    inject = keep;
    Tiny_MacroResult m = {TINY_MACRO_SUCCESS};
    if (r.type != TINY_COMPILE_SUCCESS) { m.type = TINY_MACRO_ERROR; snprintf(m.error.msg, sizeof m.error.msg, "%s", r.error.msg); }
    return m;
}
static void macro(const string &before, const string &x, const string &a, const string &b, const string &deep, bool asOne = false) {
    auto bind = [](Tiny_State *s) { OPT.binder(s); Tiny_BindMacro(s, "inject", Inject); Tiny_BindMacro(s, "injectuse", InjectUse); };
    df::Impl M(bind), P(bind);
    inject = x;
    injected2 = deep;
    string all = before + "\n" + x + "\n" + a + "\n" + b + "\n" + deep;
    bool ok1 = true, ok2 = true;
    if (!before.empty()) { ok1 = M.compile(before); ok2 = P.compile(before); }
    if (!ok1 || !ok2) mc::fail("rejected: %s", before.c_str());
    ok1 = M.compile(a + "\nuse " + (deep.empty() ? "inject" : "injectuse") + "()\n" + b);
    // the injected code comes before the code of the text which uses the macro
    if (!deep.empty()) ok2 = P.compile(deep);
    if (asOne) ok2 = P.compile(x + "\n" + a + "\n" + b);
    else ok2 = ok2 && P.compile(x) && P.compile(a + "\n" + b);
    mc::noteTrace();
    if (ok1 != ok2) mc::fail("code injected by a macro is %s but compiled in order it is %s (%s%s)\n--- before\n%s\n--- injected\n%s\n--- using text\n%s\n%s\n--- nested\n%s", ok1 ? "accepted" : "rejected", ok2 ? "accepted" : "rejected", M.err.c_str(), P.err.c_str(), before.c_str(), x.c_str(), a.c_str(), b.c_str(), deep.c_str());
    if (!ok1) return;
    string v1 = view(M.s, all), v2 = view(P.s, all);
    if (v1 != v2) mc::fail("the host sees different names %s\n%s", df::differ(v2, v1).c_str(), all.c_str());
    string o1 = observe(M, all), o2 = observe(P, all);
    if (o1 != o2) mc::fail("code injected by a macro behaves differently %s\n--- injected\n%s\n--- using text\n%s\n%s", df::differ(o2, o1).c_str(), x.c_str(), a.c_str(), b.c_str());
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        OPT = df::stdOpt();
        OPT.checkGlobals = false;      // arrays are compared by the other families
        for (auto &u : U) T.push_back(corpus::tokens(u));
        unsigned n = mc::thorough ? 4 : 3;
        mc::family("reference", mc::seqCount(NP, n), [](uint64_t i) {
            auto p = pieces(mc::seqAt(NP, i));
            if (p.empty()) return;
            for (uint64_t cut = 0; cut < 1ull << (p.size() - 1); ++cut) refSplit(p, cut);
        }, [](uint64_t i) { return show(pieces(mc::seqAt(NP, i))); });
        mc::family("sequences", mc::seqCount(NP, n), [](uint64_t i) {
            auto p = pieces(mc::seqAt(NP, i));
            if (p.size() > 1) allSplits(p, "\n", true);
        }, [](uint64_t i) { return show(pieces(mc::seqAt(NP, i))); });
        // every split of longer programs, and of their rotations and one-piece removals
        mc::family("programs", PROG.size() * 10 * 256, [](uint64_t i) {
            auto q = PROG[i % PROG.size()];
            uint64_t v = i / PROG.size() % 10, cut = i / PROG.size() / 10;
            if (v < 9) q.erase(q.begin() + v);
            auto p = pieces(q);
            if (cut >= 1ull << (p.size() - 1)) return;
            std::vector<Whole> W(p.size());
            split(p, cut, "\n", W, true);
            refSplit(p, cut);
        });
        // all pairs of corpus programs, in one and two compilations; each three times in a row of others
        mc::family("corpus-pairs", U.size() * U.size(), [](uint64_t i) {
            size_t a = i % U.size(), b = i / U.size();
            if (a == b) return;
            allSplits({U[a], U[b], U[(a + b) % U.size() == a || (a + b) % U.size() == b ? (a + b + 7) % U.size() : (a + b) % U.size()]}, "\n", true);
        });
        // every corpus program cut at every token, or at every two
        uint64_t cuts = 0;
        for (auto &t : T) cuts += t.size();
        mc::family("token-cuts", cuts, [](uint64_t i) {
            size_t u = 0;
            while (i >= T[u].size()) { i -= T[u].size(); ++u; }
            auto &t = T[u];
            if (!i) return;
            string a = corpus::joined(t, 0, i);
            std::vector<Whole> W2(2);
            split({a, corpus::joined(t, i)}, 1, "", W2, true);
            df::Impl X(OPT.binder);
            if (!X.compile(a)) return;
            for (size_t j = i + 1; j < t.size(); ++j) {
                std::vector<Whole> W(3);
                split({a, corpus::joined(t, i, j), corpus::joined(t, j)}, 3, "", W, false);
            }
        }, [](uint64_t i) { size_t u = 0; while (i >= T[u].size()) { i -= T[u].size(); ++u; } return corpus::joined(T[u], 0, i) + " | " + corpus::joined(T[u], i); });
        // code of every length (alignment of what follows) before and after a cut
        mc::family("alignment", 24 * 24 * 4, [](uint64_t i) {
            mc::Digits d(i);
            auto pad = [](int n) { string s; for (int k = 0; k < n % 12; ++k) s += "out(true)\n"; for (int k = 0; k < n / 12; ++k) s += "{ out(null, true) }\n"; return s; };
            string a = pad((int)d(24)), b = pad((int)d(24));
            static const char *M[] = {"x := 123456789012 y := 1.25 out(x, y)", "func p(v: int): int { return v + 70000 } out(p(5))", "out(\"text\") i := 0 while i < 3 { i += 1 out(i) }", "struct Z { a: int } z := new Z{99999} out(z.a)"};
            allSplits({a, M[d(4)], b, "out(\"end\", 65536)"}, "\n", true);
        });
        // one statement per compilation, many of them
        mc::family("many", 40, [](uint64_t i) {
            std::vector<string> p;
            for (int k = 0; k < 30 + (int)(i / 4) * 30; ++k)
                p.push_back(i % 4 == 0 ? "v" + I(k) + " := " + I(k) + (k ? " + v" + I(k - 1) : "") + " out(v" + I(k) + ")" : i % 4 == 1 ? "func w" + I(k) + "(a: int): int { return a + " + (k ? "w" + I(k - 1) + "(0)" : "1") + " } out(w" + I(k) + "(" + I(k) + "))" : i % 4 == 2 ? "out(\"s" + I(k) + "\", " + I(k) + ")" : "struct Q" + I(k) + " { a: int } q" + I(k) + " := new Q" + I(k) + "{" + I(k) + "} out(q" + I(k) + ")");
            if (i % 4 == 1) { for (int k = 0; k < (int)p.size(); ++k) if (k > 40) p.resize(40); }
            std::vector<Whole> W(p.size());
            split(p, ~0ull >> 1, "\n", W, false);
            for (uint64_t period = 2; period < 12; ++period) {
                uint64_t c = 0;
                for (size_t k = 0; k < 63; k += period) c |= 1ull << k;
                split(p, c, "\n", W, false);
            }
        });
        mc::family("macros", U.size() * U.size() * 2, [](uint64_t i) {
            size_t a = i % U.size(), b = i / U.size() % U.size(), c = (a + b + 11) % U.size(), d = (a * 3 + b + 5) % U.size();
            if (a == b || a == c || b == c || d == a || d == b || d == c) return;
            if (i / U.size() / U.size() == 0) macro("", U[a], U[b], U[c], "");
            else macro(U[d], U[a], U[b], U[c], "");
        });
        mc::family("macro-nested", U.size() * U.size(), [](uint64_t i) {
            size_t a = i % U.size(), b = i / U.size() % U.size(), c = (a + b + 11) % U.size(), d = (a * 3 + b + 5) % U.size();
            if (a == b || a == c || b == c || d == a || d == b || d == c) return;
            macro("", U[a], U[b], "", U[c]);
            macro(U[d], U[a], "", U[b], U[c]);
        });
        // functions of the injected code used by the text
        mc::family("macro-uses", NP * NP * NP, [](uint64_t i) {
            mc::Digits d(i);
            string x = PIECE[d(NP)], a = PIECE[d(NP)], b = PIECE[d(NP)];
            static const std::set<string> binds{PIECE[0], PIECE[7], PIECE[13], PIECE[18], PIECE[22], PIECE[23], PIECE[15], PIECE[9], PIECE[6], PIECE[12]};
            // names of variables, constants and types are resolved before macros run, those of functions afterwards
            if (binds.count(x) || binds.count(a) || binds.count(b)) return;
            if (x.substr(0, 5) == "func " && (x.substr(0, 6) == a.substr(0, 6) || x.substr(0, 6) == b.substr(0, 6))) return;
            macro("a := 1 struct S { v: int n: any } s := new S{4, null} K2 :: 3 K :: 4", x, a, b, "", true);
        });
    });
}
